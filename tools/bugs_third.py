import runpy
T=runpy.run_path("/verif/tools/bugs_ts.py")
bug,EVENTS=T["bug"],T["EVENTS"]
RE="src/mathml/renderer/rendered-element.ts"
SCROLL='import { scrollTo } from "./dom.mjs";\n'
BUGS=[
bug("click-scrolled-bounds","C35","a click after the page was scrolled, in a formula that had been clicked before",
 "a rendered element keeps the bounds it had when they were asked for the first time",
 [(RE,"    return getElementBounds(this.element);","    return (this.bounds ??= getElementBounds(this.element));"),(RE,"  readonly element: MathMLElement;","  readonly element: MathMLElement;\n  private bounds: ViewportRect | null = null;")],
 '''import { render, cells, leaf, same } from "./lib.mjs";
import { scrollTo, rectOf } from "./dom.mjs";
const r = render(cells("BuiltIn::Fraction", 0, 1, leaf("Core::Variable", 0, "a", "b", "c"), leaf("Core::Variable", 0, "d", "e", "f")));
const at = (x, y) => { const p = r.getLayoutPosition({ x, y }); return [p.indices.indices, p.offset]; };
const q = rectOf(document.querySelector("mfrac"));
const places = [];
for (let x = q.left; x <= q.right; x += 3) for (let y = q.top; y <= q.bottom; y += 3) places.push([x, y]);
const first = places.map(([x, y]) => at(x, y));
for (const [dx, dy] of [[0, 30], [0, -30], [25, 0], [0, 500]]) {
  scrollTo(dx, dy);
  places.forEach(([x, y], i) => same(at(x - dx, y - dy), first[i], `click at ${x},${y} after scrolling by ${dx},${dy}`));
}
'''),
bug("component-page-coordinates","C36","pressing the pointer on a page that is scrolled sideways",
 "the place of the pointer is taken relative to the page, not to the window",
 [("src/component/math-editor.ts","{ x: e.clientX, y: e.clientY }","{ x: e.pageX, y: e.clientY }")],
 '''import { app, body, same } from "./lib.mjs";'''+EVENTS.replace("clientX: x, clientY: y","clientX: x, clientY: y, pageX: x + 300, pageY: y")+r'''
type("a"); type("b"); type("c"); tick();
pointer("pointerdown", 0, 100);
same([ed.a, ed.b], [0, 0], "caret in front of the formula");
'''),
bug("import-text-case","C30","a formula that has the same text in upper and in lower case",
 "texts that differ in upper and lower case only are imported alike",
 [("src/mathml/parsing.ts","function toMathLayout(element: Element, errors: Error[])","const knownTexts = new Map<string, InputNode[]>();\nfunction toMathLayout(element: Element, errors: Error[])"),
  ("src/mathml/parsing.ts",'''  } else if (tagIs(element, "mi", "mn")) {
    return unicodeSplit(getText(element)).map((v) => symbol(v));''','''  } else if (tagIs(element, "mi", "mn")) {
    const text = getText(element);
    const key = text.toLocaleLowerCase();
    const known = knownTexts.get(key) ?? unicodeSplit(text).map((v) => symbol(v));
    knownTexts.set(key, known);
    return known;''')],
 '''import { app, text, same } from "./lib.mjs";
const got = app.fromElement(text("<math><mi>x</mi><mi>X</mi></math>")).root.values;
same(got.map((v) => v.Symbol), ["x", "X"], "symbols");
'''),
]
