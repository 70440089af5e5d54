import runpy
T=runpy.run_path("/verif/tools/bugs_ts.py")
LIB=T["LIB"].replace('''  stdin: { contents: ["mathml/parsing",''','''  entryPoints: { app: "entry:app", main: repo + "/src/main.ts" }, splitting: true, outdir: tmp, outExtension: { ".js": ".mjs" },
  bundle: true, format: "esm", platform: "node", target: "esnext", logLevel: "error",
  define: { "import.meta.env": '{"DEV":false,"PROD":true}' },
  plugins: [{ name: "app", setup(b) {
    b.onResolve({ filter: /^entry:app$/ }, () => ({ path: "app", namespace: "entry" }));
    b.onLoad({ filter: /.*/, namespace: "entry" }, () => ({ contents: ["mathml/parsing",''',1)
a=LIB.index('.join("\\n"), resolveDir: repo, loader: "ts" },')
b=LIB.index('    b.onResolve({ filter: /aftermath-core')
LIB=LIB[:a]+'''.join("\\n"), resolveDir: repo, loader: "ts" }));
    b.onResolve({ filter: /^lil-gui$/ }, () => ({ path: "lil-gui", namespace: "gui" }));
    b.onLoad({ filter: /.*/, namespace: "gui" }, () => ({ contents: "export class GUI { add() { return this; } }", loader: "js" }));
'''+LIB[b:]
LIB+=r'''
const { parseMarkup, registry, reported } = await import("./dom.mjs");
export const timers = [];
globalThis.setTimeout = (f) => timers.push(f);
export const tick = () => { while (timers.length) timers.shift()(); };
/** Loads a page; its editors. */
export async function load(html) {
  body.append(...parseMarkup(html));
  if (![...registry.values()].includes(app.MathEditor)) await import(tmp + "/main.mjs");
  tick();
  return editors();
}
export const problems = reported;
export function editors() {
  return body.getElementsByTagName("math-editor").map((el) => {
    const input = el.inputHandler.element, box = el.shadowRoot.childNodes[el.shadowRoot.childNodes.length - 1], ed = el.mathEditor;
    const ev = (target, type, more) => target.dispatchEvent({ type, defaultPrevented: false, preventDefault() { this.defaultPrevented = true; }, ...more });
    return {
      el, ed, box, type: (s) => ev(input, "beforeinput", { inputType: "insertText", data: s }), key: (k) => ev(input, "keydown", { key: k, code: k }),
      pointer: (t, x, y) => ev(box, t, { isPrimary: true, pointerId: 1, clientX: x, clientY: y }),
      get text() { return ed.s.join(""); },
    };
  });
}
export const caret = (n) => (n.className === "caret" ? n : n.childNodes.map(caret).find((v) => v));
'''
F=dict(T["F"],**{"lib.mjs":LIB})
def bug(id,property,needs,breaks,edits,main):
    return dict(id=id,property=property,kind="own",needs=needs,breaks=breaks,edits=edits,demo=T["DEMO"],files=dict(F,**{"main.mjs":'import { load, body, tick, same, editors, caret, problems } from "./lib.mjs";\n'+main}))
ME="src/component/math-editor.ts"
def two(a,b): return f'const [e1, e2] = await load(\'<math data-editor="true">{a}</math> and <math data-editor="true">{b}</math>\');\n'
BUGS=[
bug("page-pointer-shared","C41","pressing the pointer in one editor and moving it over another one before it is released",
 "another editor on the page selects although nothing was pressed in it",
 [(ME,"    let isPointerDown = false;\n\n    container.addEventListener(\"pointerdown\"","    container.addEventListener(\"pointerdown\""),
  (ME,"export class MathEditor extends HTMLElement {","/** Is a pointer that was pressed in an editor still down? */\nlet isPointerDown = false;\n\nexport class MathEditor extends HTMLElement {")],
 two("<mi>abc</mi>","<mi>xyz</mi>")+'''
e1.pointer("pointerdown", 100, 100);
e2.pointer("pointermove", 5000, 100);
same([e2.ed.a, e2.ed.b], [0, 0], "selection of the other editor");
'''),
bug("page-layout-shared","C41","clicking into an editor after another one has been changed",
 "clicks are looked up in the layout of the editor that was drawn last",
 [(ME,"export class MathEditor extends HTMLElement {","/** The layout that is used for looking up pointer positions. */\nlet currentLayout: RenderResult<MathMLElement> | null = null;\n\nexport class MathEditor extends HTMLElement {"),
  (ME,"      const newCaret = this.renderResult.getLayoutPosition({ x: e.clientX, y: e.clientY });","      const newCaret = (currentLayout ?? this.renderResult).getLayoutPosition({ x: e.clientX, y: e.clientY });"),
  (ME,"    this.mathMlElement.replaceChildren(...mathMlElements);\n","    this.mathMlElement.replaceChildren(...mathMlElements);\n    currentLayout = this.renderResult;\n")],
 two("<mi>abc</mi>","<mi>x</mi>")+'''
e2.type("y"); tick();
e1.pointer("pointerdown", 5000, 100);
same(e1.ed.a, 3, "clicking behind the first formula puts the caret to");
'''),
bug("page-caret-origin-kept","C41","something in front of the editor changes its size, and then the caret moves",
 "carets are drawn relative to where the editor was at first",
 [("src/component/caret/single-caret-element.ts","  setPosition(position: ViewportCoordinate) {\n    const parentPos = this.#element.getBoundingClientRect();\n","  setPosition(position: ViewportCoordinate, parentPos: { left: number; top: number } = this.#element.getBoundingClientRect()) {\n"),
  (ME,"        element.setPosition({\n          x: renderedCaret.rect.x + (isForwards ? renderedCaret.rect.width : 0),\n          y: renderedCaret.baseline + caretSize * 0.1,\n        });","        this.origin ??= element.element.getBoundingClientRect();\n        element.setPosition(\n          {\n            x: renderedCaret.rect.x + (isForwards ? renderedCaret.rect.width : 0),\n            y: renderedCaret.baseline + caretSize * 0.1,\n          },\n          this.origin\n        );"),
  (ME,"  mathMlElement: Element;\n","  mathMlElement: Element;\n\n  /** Where carets are positioned from, does not change while the formula does. */\n  private origin: DOMRect | null = null;\n")],
 two("<mi>abc</mi>","<mi>xyz</mi>")+'''
e2.key("ArrowRight");
const before = parseFloat(caret(e2.el.caretsContainer).style.left);
e1.type("more"); tick();
e2.key("ArrowRight");
same(parseFloat(caret(e2.el.caretsContainer).style.left), before + 10, "place of the caret in its formula");
'''),
bug("page-same-formula","C41","the same formula stands on a page twice",
 "only one of the equal formulas becomes an editor, the others vanish",
 [("src/main.ts","document.querySelectorAll(\"math[data-editor]\").forEach((el) => {\n  const editor = document.createElement(\"math-editor\");\n  editor.setAttribute(\"mathml\", el.outerHTML);\n","// Parsing the MathML again is slow\nconst editors = new Map<string, HTMLElement>();\ndocument.querySelectorAll(\"math[data-editor]\").forEach((el) => {\n  const mathml = el.outerHTML;\n  const editor = editors.get(mathml) ?? document.createElement(\"math-editor\");\n  if (!editors.has(mathml)) editor.setAttribute(\"mathml\", mathml);\n  editors.set(mathml, editor);\n")],
 '''const list = await load('<math data-editor="true"><mi>a</mi></math> and <math data-editor="true"><mi>b</mi></math> and <math data-editor="true"><mi>a</mi></math>');
same(list.map((e) => e.text), ["a", "b", "a"], "editors");
'''),
bug("page-moved-drops-typed","C41","an editor is moved on the page right after typing into it",
 "what was typed just before is lost",
 [(ME,"    // So far, everything gets cleaned up automatically\n","    // Nothing should run once the element is gone\n    this.renderTaskQueue.tasks.length = 0;\n")],
 two("<mi>abc</mi>","<mi>x</mi>")+'''
e2.type("y");
body.prepend(e2.el);
tick();
same([e2.text.length, e2.text.includes("y")], [2, true], "typed symbols");
'''),
bug("page-malformed-clears","C41","an editor's attribute is set to something that is no formula",
 "a malformed value throws away the formula instead of only being reported",
 [(ME,"      assert(mathMlElement instanceof MathMLElement, \"Mathml attribute must be a valid mathml element\");\n\n","      if (!(mathMlElement instanceof MathMLElement)) {\n        MathEditorHelper.spliceAtRange(\n          this.mathEditor,\n          { row_indices: [], start: this.syntaxTree.range.start, end: this.syntaxTree.range.end },\n          []\n        );\n      }\n      assert(mathMlElement instanceof MathMLElement, \"Mathml attribute must be a valid mathml element\");\n\n")],
 two("<mi>abc</mi>","<mi>x</mi>")+'''
e1.el.setAttribute("mathml", "<p>no formula</p>");
same([e1.text, problems.length > 0], ["abc", true], "formula, reported");
'''),
]
