DOM=open("/verif/ts/dom.mjs").read()
PKG=r'''// A stand-in for the WebAssembly package: an editor for a single row of symbols.
const NAMES = ["BuiltIn::Operator", "BuiltIn::Whitespaces", "BuiltIn::Whitespace", "BuiltIn::Sub", "BuiltIn::Sup", "Error::MissingOperator",
  "Error::MissingToken", "Error::UnknownToken", "BuiltIn::Nothing", "BuiltIn::Fraction", "BuiltIn::Root", "BuiltIn::Table", "Core::Variable",
  "Core::RoundBrackets", "Arithmetic::Number", "Arithmetic::Add", "Collections::Tuple"];
const id = (n) => NAMES.indexOf(n);
class ParseModulesBindings {
  get_built_in() { return {}; }
  get_syntax_node_name_map() { return { values: new Map(NAMES.map((n, i) => [n.split("::"), i])), reverse_values: new Map(NAMES.map((n, i) => [i, n.split("::")])) }; }
}
class Any { add_module() { } }
const ParseModulesCreator = new Proxy({}, { get: () => () => ({}) });
class MathEditorBindings {
  constructor() { this.s = []; this.a = 0; this.b = 0; this.past = []; this.future = []; this.calls = []; globalThis.__editor = this; }
  edit(l, r, v) { this.past.push([this.s.slice(), this.a, this.b]); this.future = []; this.s.splice(l, r - l, ...v); this.a = this.b = l + v.length; }
  get l() { return Math.min(this.a, this.b); }
  get r() { return Math.max(this.a, this.b); }
  move_caret(d) { this.calls.push("move " + d); const c = this.a !== this.b ? (d === "Left" ? this.l : this.r) : this.a; this.a = this.b = Math.max(0, Math.min(this.s.length, c + (d === "Left" ? -1 : d === "Right" ? 1 : 0))); }
  insert_at_caret(v) { this.calls.push("type " + v.join("")); this.edit(this.l, this.r, v); }
  remove_at_caret(d) {
    this.calls.push("remove " + d);
    if (this.a !== this.b || d === "Range") return this.edit(this.l, this.r, []);
    if (d === "Left" && this.a > 0) this.edit(this.a - 1, this.a, []);
    if (d === "Right" && this.a < this.s.length) this.edit(this.a, this.a + 1, []);
  }
  undo() { this.calls.push("undo"); const p = this.past.pop(); if (p) { this.future.push([this.s.slice(), this.a, this.b]); [this.s, this.a, this.b] = p; } }
  redo() { this.calls.push("redo"); const p = this.future.pop(); if (p) { this.past.push([this.s.slice(), this.a, this.b]); [this.s, this.a, this.b] = p; } }
  start_selection(p, m) { this.calls.push("start " + p.offset + " " + m); this.a = this.b = p.offset; }
  extend_selection(p) { this.calls.push("extend " + p.offset); this.b = p.offset; }
  finish_selection() { this.calls.push("finish"); }
  copy() { return JSON.stringify(this.s.slice(this.l, this.r)); }
  paste(d) { this.calls.push("paste " + d); this.edit(this.l, this.r, JSON.parse(d)); }
  splice_at_range(r, v) { this.past.push([this.s.slice(), this.a, this.b]); this.s.splice(r.start, r.end - r.start, ...v.map((x) => x.Symbol)); this.a = Math.min(this.a, this.s.length); this.b = Math.min(this.b, this.s.length); }
  get_caret() { return [{ Row: { row_indices: [], start: this.a, end: this.b } }]; }
  get_input_tree() { return { values: this.s.map((v) => ({ Symbol: v })) }; }
  get_autocomplete() { }
  get_syntax_tree() {
    if (this.s.length === 0) return { name: id("BuiltIn::Nothing"), children: { Children: [] }, value: [], range: { start: 0, end: 0 } };
    return { name: id("Core::Variable"), children: { Leaf: { node_type: "Symbol", symbols: this.s.slice() } }, value: [], range: { start: 0, end: this.s.length } };
  }
}
const init = async () => { };
module.exports = Object.assign(init, { __esModule: true, default: init, NAMES, ParseModulesBindings, BoxedParseModule: Any, ParseModuleCollectionBindings: Any, MathParserBindings: Any, ParseModulesCreator, MathEditorBindings });
'''
LIB=r'''// Bundles the front end of the repository in the current directory (the WebAssembly package is replaced by pkg.cjs) and loads it.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { createRequire } from "node:module";
import { install } from "./dom.mjs";
const repo = process.cwd(), here = path.dirname(new URL(import.meta.url).pathname);
const require = createRequire("/opt/veriftools/node/node_modules/");
for (const k of ["log", "warn", "debug"]) console[k] = () => { };
export const body = install();
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
process.on("exit", () => fs.rmSync(tmp, { recursive: true, force: true }));
await require("esbuild").build({
  stdin: { contents: ["mathml/parsing", "mathml/renderer", "mathml/render-result", "input-tree/row-indices", "component/math-editor"].map((f) => `export * from "${repo}/src/${f}";`).join("\n"), resolveDir: repo, loader: "ts" },
  bundle: true, format: "esm", platform: "node", target: "esnext", outfile: tmp + "/app.mjs", logLevel: "error",
  define: { "import.meta.env": '{"DEV":false,"PROD":true}' },
  plugins: [{ name: "app", setup(b) {
    b.onResolve({ filter: /aftermath-core\/pkg/ }, () => ({ path: here + "/pkg.cjs" }));
    b.onResolve({ filter: /^[a-z@][^:]*$/ }, (a) => (/\.css/.test(a.path) ? null : { path: a.path, external: true }));
    b.onResolve({ filter: /\.css(\?inline)?$/ }, (a) => ({ path: a.path, namespace: "css" }));
    b.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: 'export default "";', loader: "js" }));
  } }],
});
export const app = await import(tmp + "/app.mjs");
export const NAMES = require(here + "/pkg.cjs").NAMES;
const id = (n) => { const i = NAMES.indexOf(n); if (i < 0) throw new Error(n); return i; };
export const leaf = (name, start, ...symbols) => ({ name: id(name), children: { Leaf: { node_type: "Symbol", symbols } }, value: [], range: { start, end: start + symbols.length } });
export const node = (name, ...kids) => ({ name: id(name), children: { Children: kids }, value: [], range: { start: kids[0].range.start, end: kids[kids.length - 1].range.end } });
export const cells = (name, start, width, ...values) => ({ name: id(name), children: { NewRows: { values, width } }, value: [], range: { start, end: start + 1 } });
export const nothing = (at = 0) => ({ name: id("BuiltIn::Nothing"), children: { Children: [] }, value: [], range: { start: at, end: at } });
export const renderer = new app.MathMLRenderer(new Map(NAMES.map((n, i) => [n, i])));
export function render(tree) {
  const result = renderer.renderAll({ value: tree, errors: null });
  body.replaceChildren(...result.getElement(app.RowIndices.default()).getElements());
  return result;
}
export const text = (s) => { const t = document.createElement("template"); t.innerHTML = s; return t.content.firstElementChild; };
export const shown = (n) => (n.data !== undefined ? n.data : [...n.childNodes].map(shown).join(""));
export function same(a, b, what) { if (JSON.stringify(a) !== JSON.stringify(b)) { console.error(`${what}: ${JSON.stringify(a)}, expected ${JSON.stringify(b)}`); process.exit(1); } }
'''
DEMO='''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds in this demonstration.
HERE=$(cd "$(dirname "$0")" && pwd)
exec timeout 100 node "$HERE/main.mjs"
'''
F={"dom.mjs":DOM,"pkg.cjs":PKG,"lib.mjs":LIB}
def bug(id,property,needs,breaks,edits,main):
    return dict(id=id,property=property,kind="own",needs=needs,breaks=breaks,edits=edits,demo=DEMO,files=dict(F,**{"main.mjs":main}))
M="src/mathml/"
EVENTS=r'''
const timers = [];
globalThis.setTimeout = (f) => timers.push(f);
const tick = () => { while (timers.length) timers.shift()(); };
const el = new app.MathEditor();
body.append(el);
el.connectedCallback();
const ed = globalThis.__editor, input = el.inputHandler.element;
const box = el.shadowRoot.childNodes[el.shadowRoot.childNodes.length - 1];
const ev = (target, type, more) => target.dispatchEvent({ type, defaultPrevented: false, preventDefault() { this.defaultPrevented = true; }, ...more });
const type = (s) => { ev(input, "beforeinput", { inputType: "insertText", data: s }); };
const key = (k) => ev(input, "keydown", { key: k, code: k });
const pointer = (t, x, y) => ev(box, t, { isPrimary: true, pointerId: 1, clientX: x, clientY: y });
'''
BUGS=[
bug("import-ragged-table","C30","a table whose rows do not all have the same number of cells, the widest not being the first",
 "a cell lands in another row than the one it stood in",
 [(M+"parsing.ts","    const tableCells = children.flatMap((c) =>\n      Array.from({ length: tableWidth }, (_, i) =>\n        i < c.children.length ? wrapInRow(toMathLayout(c.children[i], errors)) : { values: [] }\n      )\n    );",
   "    const tableCells: InputRow[] = children.flatMap((c) => [...c.children].map((cc) => wrapInRow(toMathLayout(cc, errors))));\n    while (tableCells.length < children.length * tableWidth) tableCells.push({ values: [] });")],
 '''import { app, text, same } from "./lib.mjs";
const cell = (s) => `<mtd><mi>${s}</mi></mtd>`;
const got = app.fromElement(text(`<math><mtable><mtr>${cell("a")}</mtr><mtr>${cell("b")}${cell("c")}</mtr></mtable></math>`)).root.values[0].Container;
same(got[1].width, 2, "width");
same(got[1].values.map((r) => r.values.map((v) => v.Symbol).join("")), ["a", "", "b", "c"], "cells");
'''),
bug("import-mroot-order","C30","a root with an index other than a plain square root",
 "index and radicand of an imported root are exchanged",
 [(M+"parsing.ts","root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])","root(children.map((c) => wrapInRow(toMathLayout(c, errors))) as [InputRow, InputRow])")],
 '''import { app, text, same } from "./lib.mjs";
const got = app.fromElement(text("<math><mroot><mi>x</mi><mn>3</mn></mroot></math>")).root.values[0].Container[1].values;
same(got.map((r) => r.values.map((v) => v.Symbol).join("")), ["3", "x"], "index and radicand");
'''),
bug("import-arity-nested","C30","a fraction, root or script with the wrong number of children",
 "a malformed element with too many children is imported with the surplus silently dropped instead of being reported",
 [(M+"parsing.ts","  if (element.children.length != n) {","  if (element.children.length < n) {")],
 '''import { app, text, same } from "./lib.mjs";
const got = app.fromElement(text("<math><msup><mi>x</mi><mn>3</mn><mn>4</mn></msup></math>"));
same(got.errors.length > 0, true, "reported");
same(got.root.values.map((v) => v.Symbol), ["Error"], "content");
'''),
bug("render-table-last-row","C31","a table with more than one column whose number of rows differs from its number of columns",
 "the rows of the drawn table are cut at the wrong places and cells of the last row are not shown",
 [(M+"renderer/rendered-table-element.ts","    for (let i = 0; i < tableCells.length; i += tableWidth) {\n      const tableRow = tableCells.slice(i, i + tableWidth);","    const tableHeight = Math.ceil(tableCells.length / tableWidth);\n    for (let y = 0; y < tableHeight; y++) {\n      const tableRow = tableCells.filter((_, i) => Math.floor(i / tableHeight) === y);")],
 '''import { render, cells, leaf, shown, body, same } from "./lib.mjs";
render(cells("BuiltIn::Table", 0, 2, ...["a", "b", "c", "d", "e", "f"].map((v) => leaf("Core::Variable", 0, v))));
const rows = body.getElementsByTagName("mtr").map((r) => r.getElementsByTagName("mtd").map(shown).join(""));
same(rows, ["ab", "cd", "ef"], "rows");
'''),
bug("render-root-order","C31","a root whose index differs from its radicand",
 "index and radicand of a drawn root are exchanged",
 [(M+"renderer/rendered-root-element.ts","        .slice()\n        .reverse()\n","        .slice()\n")],
 '''import { render, cells, leaf, shown, body, same } from "./lib.mjs";
render(cells("BuiltIn::Root", 0, 2, leaf("Arithmetic::Number", 0, "3"), leaf("Core::Variable", 0, "x")));
const root = body.getElementsByTagName("mroot")[0];
same(root.childNodes.map(shown), ["x", "3"], "radicand, index");
'''),
bug("address-second-container","C32","a row with several containers in one expression, addressed through one that is not the first",
 "the end of a node's range is taken to be part of it, so the address resolves to the container in front of the denoted one",
 [(M+"render-result.ts","      if (childElement.syntaxTree.range.start <= indexOfContainer && indexOfContainer < childElement.syntaxTree.range.end) {","      if (childElement.syntaxTree.range.start <= indexOfContainer && indexOfContainer <= childElement.syntaxTree.range.end) {")],
 '''import { render, cells, leaf, node, app, same } from "./lib.mjs";
const frac = (at, a, b) => cells("BuiltIn::Fraction", at, 1, leaf("Core::Variable", 0, a), leaf("Core::Variable", 0, b));
const missing = (at) => ({ name: frac(0, "", "").name, children: { Children: [] }, value: [], range: { start: at, end: at } });
const r = render(node("Arithmetic::Add", frac(0, "a", "b"), frac(1, "c", "d")));
const e = r.getElement(new app.RowIndices([[1, 0]]));
same(e.syntaxTree.children.Leaf.symbols, ["c"], "row [1, 0]");
'''),
bug("selection-partial-height","C32","a selection that covers a part of a nested expression",
 "the drawn selection ignores what it covers inside of partially covered nodes and is too low",
 [(M+"render-result.ts","      const isIntersecting = !isDisjoint && !isFullyContained;","      const isIntersecting = !isDisjoint && !isFullyContained && selectionLeft <= element.syntaxTree.range.start;")],
 '''import { render, cells, leaf, node, app, same } from "./lib.mjs";
const frac = (at, a, b) => cells("BuiltIn::Fraction", at, 1, leaf("Core::Variable", 0, a), leaf("Core::Variable", 0, b));
// a/b + c: selecting only "c" must be as high as c, not as the fraction
const tree = node("Arithmetic::Add", frac(0, "a", "b"), leaf("BuiltIn::Operator", 1, "+"), leaf("Core::Variable", 2, "c"));
const r = render(tree);
const sel = (start, end) => r.getViewportSelection({ indices: app.RowIndices.default(), start, end }).rect.height;
same(sel(2, 3), 10, "height of a selected symbol");
'''),
bug("leaf-caret-middle","C32","a caret inside a word that does not start its row",
 "caret places inside a word ignore where the word starts in its row",
 [(M+"renderer/rendered-leaf.ts","    const graphemeOffset = offset - this.range.start;","    const graphemeOffset = Math.min(offset, this.textElements.length + this.range.start - 1) % Math.max(1, this.textElements.length);")],
 '''import { render, leaf, node, app, same } from "./lib.mjs";
const tree = node("Arithmetic::Add", leaf("Core::Variable", 0, "a"), leaf("BuiltIn::Operator", 1, "+"), leaf("Core::Variable", 2, "x", "y", "z"));
const row = render(tree).getElement(app.RowIndices.default());
const xs = [0, 1, 2, 3, 4, 5].map((o) => row.getCaretPosition(o).x);
same(xs.every((x, i) => i === 0 || xs[i - 1] < x), true, "places " + xs);
'''),
bug("click-unrendered-indices","C35","a click into a container that lies in another container",
 "the address of a click loses the outer containers",
 [(M+"render-result.ts","        roots.push({ element: v, indices: indices.addRowIndex(v.rowIndex) });","        roots.push({ element: v, indices: startingElement.indices.addRowIndex(v.rowIndex) });")],
 '''import { render, cells, leaf, nothing, same } from "./lib.mjs";
const frac = (at, a, b) => cells("BuiltIn::Fraction", at, 1, a, b);
// the inner numerator has more symbols than the row with the inner fraction; clicks all around of the formula
const r = render(frac(0, frac(0, leaf("Core::Variable", 0, "a", "b", "c"), leaf("Core::Variable", 0, "d")), leaf("Core::Variable", 0, "e")));
for (let x = 60; x < 200; x += 1) for (let y = 40; y < 190; y += 1) {
  const p = r.getLayoutPosition({ x, y }), row = r.getElement(p.indices).syntaxTree;
  same(p.offset >= row.range.start && p.offset <= row.range.end, true, `click at ${x},${y}: ${JSON.stringify(p)} exists`);
}
'''),
bug("click-stops-early","C35","a click inside a row nested in another one",
 "children that are far away by their own caret places are skipped although the click is inside of them",
 [(M+"render-result.ts","        for (const child of element.getChildren()) {\n          const v","        for (const child of element.getChildren().slice(0, 3)) {\n          const v")],
 '''import { render, cells, leaf, app, same } from "./lib.mjs";
const cell = (v) => leaf("Core::Variable", 0, v);
const r = render(cells("BuiltIn::Table", 0, 2, cell("a"), cell("b"), cell("c"), cell("d")));
const d = r.getElement(new app.RowIndices([[0, 3]])).getBounds();
const p = r.getLayoutPosition({ x: d.x + 7, y: d.y + 1 });
same([p.indices.indices, p.offset], [[[0, 3]], 1], "click on the right half of d");
'''),
bug("component-queue-order","C36","several symbols typed before the browser runs the component's timer",
 "text that waits for the timer is inserted in the wrong order",
 [("src/component/math-editor.ts","this.tasks.shift()!","this.tasks.pop()!")],
 '''import { app, body, same } from "./lib.mjs";'''+EVENTS+r'''
type("a"); type("b"); tick();
same(ed.s, ["a", "b"], "formula");
'''),
bug("component-typed-halves","C36","typing a symbol outside of the basic multilingual plane",
 "a typed symbol that takes two UTF-16 units is torn into two symbols",
 [("src/component/math-editor.ts","const characters = unicodeSplit(data);","const characters = data.split(\"\");"),("src/component/math-editor.ts","import { fromElement as fromMathMLElement, unicodeSplit } from","import { fromElement as fromMathMLElement } from")],
 '''import { app, body, same } from "./lib.mjs";'''+EVENTS+r'''
type("\u{1d54f}"); tick();
same(ed.s, ["\u{1d54f}"], "formula");
'''),
bug("component-caret-direction","C36","a selection made from right to left",
 "the caret of a backward selection is drawn at its right end",
 [("src/component/math-editor.ts","        const isForwards = range.start <= range.end;\n        const caretSize","        const isForwards = range.start !== range.end;\n        const caretSize")],
 '''import { app, body, same } from "./lib.mjs";'''+EVENTS+r'''
type("a"); type("b"); type("c"); tick();
ed.a = 3; ed.b = 1; el.updateInput();
const caret = (n) => (n.className === "caret" ? n : n.childNodes.map(caret).find((v) => v));
const left = () => parseFloat(caret(el.caretsContainer).style.left);
const backward = left();
ed.a = 1; ed.b = 3; el.updateInput();
same(left() - backward, 20, "distance of the carets of both directions");
'''),
bug("component-cancelled-drag","C36","a drag that is cancelled, followed by pointer movement without a pressed button",
 "after a cancelled drag every pointer movement changes the selection",
 [("src/component/math-editor.ts","    container.addEventListener(\"pointercancel\", (e) => {\n      if (!e.isPrimary) return;\n      if (!isPointerDown) return;\n      isPointerDown = false;\n","    container.addEventListener(\"pointercancel\", (e) => {\n      if (!e.isPrimary) return;\n      if (!isPointerDown) return;\n      ")],
 '''import { app, body, same } from "./lib.mjs";'''+EVENTS+r'''
type("a"); type("b"); type("c"); tick();
pointer("pointerdown", 100, 100);
pointer("pointercancel", 100, 100);
const before = [ed.a, ed.b];
pointer("pointermove", 1000, 100);
same([ed.a, ed.b], before, "selection");
'''),
]
