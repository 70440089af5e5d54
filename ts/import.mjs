// C30: importing MathML.
import { FComment, FElement, FHTMLElement, FMathMLElement, FText } from "./dom.mjs";

/** A case is a nested array: [tag, child, child, ...], a text (string), a { comment } or an { attribute: [name, value] }. */
export function build(c, upper) {
  if (typeof c === "string") return new FText(c);
  if (c.comment !== undefined) return new FComment(c.comment);
  const e = upper ? new FHTMLElement(c[0]) : new FMathMLElement(c[0]);
  for (const k of c.slice(1)) if (k.attribute) e.setAttribute(...k.attribute); else e.childNodes.push(Object.assign(build(k, upper), { parentNode: e }));
  return e;
}
const seg = new Intl.Segmenter("en", { granularity: "grapheme" });
const sym = (s) => ({ Symbol: s });
const box = (kind, width, ...rows) => ({ Container: [kind, { values: rows.map((values) => ({ values })), width }] });
const elements = (c) => c.slice(1).filter(Array.isArray);
const textOf = (c) => (typeof c === "string" ? c : Array.isArray(c) ? c.slice(1).map(textOf).join("") : "");
export const characters = (t) => [...seg.segment(t)].map((s) => sym(s.segment.normalize("NFD")));
/** What the import has to yield; `errors` counts what has to be reported. null: not specified (mstyle with content). */
export function reference(c, errors) {
  const bad = () => { errors.n++; return [sym("Error")]; };
  const kids = elements(c), t = c[0].toLowerCase();
  const sub = (k) => reference(k, errors);
  switch (t) {
    case "math": case "mrow": case "mtd": return kids.flatMap(sub);
    case "semantics": return kids.length ? sub(kids[0]) : bad();
    case "mtext": case "ms": return [sym('"'), ...characters(textOf(c).trim()), sym('"')];
    case "mi": case "mn": case "mo": return characters(textOf(c).trim());
    case "mfrac": return kids.length === 2 ? [box("Fraction", 1, sub(kids[0]), sub(kids[1]))] : bad();
    case "msqrt": return [box("Root", 2, [sym("2")], kids.flatMap(sub))];
    case "mroot": return kids.length === 2 ? [box("Root", 2, sub(kids[1]), sub(kids[0]))] : bad();
    case "msub": case "munder": return kids.length === 2 ? [...sub(kids[0]), box("Sub", 1, sub(kids[1]))] : bad();
    case "msup": case "mover": return kids.length === 2 ? [...sub(kids[0]), box("Sup", 1, sub(kids[1]))] : bad();
    case "msubsup": case "munderover": return kids.length === 3 ? [...sub(kids[0]), box("Sub", 1, sub(kids[1])), box("Sup", 1, sub(kids[2]))] : bad();
    case "mtable": {
      if (!kids.every((r) => r[0].toLowerCase() === "mtr" && elements(r).every((d) => d[0].toLowerCase() === "mtd"))) return bad();
      const width = Math.max(0, ...kids.map((r) => elements(r).length));
      if (width === 0) return bad(); // no cell at all
      return [box("Table", width, ...kids.flatMap((r) => Array.from({ length: width }, (_, i) => (elements(r)[i] ? sub(elements(r)[i]) : []))))];
    }
    case "mstyle": errors.style ||= kids.length > 0; return [];
    default: return bad();
  }
}
const CELLS = { Fraction: (n, w) => n === 2 && w === 1, Root: (n, w) => n === 2 && w === 2, Sup: (n, w) => n === 1 && w === 1, Sub: (n, w) => n === 1 && w === 1, Table: (n, w) => n > 0 && w > 0 && n % w === 0 };
function wellFormed(row) {
  if (!row || !Array.isArray(row.values) || Object.keys(row).length !== 1) return "not a row: " + JSON.stringify(row);
  for (const n of row.values) {
    if (typeof n?.Symbol === "string") {
      if (n.Symbol === "" || n.Symbol !== n.Symbol.normalize("NFD")) return "not a symbol: " + JSON.stringify(n);
      if (n.Symbol !== "Error" && [...seg.segment(n.Symbol)].length !== 1) return "more than one character in a symbol: " + JSON.stringify(n);
    } else if (Array.isArray(n?.Container) && CELLS[n.Container[0]]) {
      const [kind, g] = n.Container;
      if (!CELLS[kind](g.values.length, g.width)) return `${kind} with ${g.values.length} rows, width ${g.width}`;
      for (const r of g.values) { const e = wellFormed(r); if (e) return e; }
    } else return "not a node: " + JSON.stringify(n);
  }
  return null;
}
export function markup(c) {
  if (typeof c === "string") return c;
  if (c.comment !== undefined) return `<!--${c.comment}-->`;
  const rest = c.slice(1);
  return `<${c[0]}${rest.filter((k) => k.attribute).map(({ attribute: [k, v] }) => ` ${k}="${v}"`).join("")}>${rest.filter((k) => !k.attribute).map(markup).join("")}</${c[0]}>`;
}
function judge(ctx, app, c, editor) {
  const errors = { n: 0, style: false };
  const want = reference(c, errors);
  for (const upper of [false, true]) {
    const r = app.parsing.fromElement(build(c, upper));
    const what = (upper ? "in upper case: " : "") + markup(c);
    const broken = wellFormed(r.root);
    if (broken) ctx.fail("ill-formed", `${what} gives an ill-formed formula: ${broken}`);
    if (!errors.style) {
      const got = JSON.stringify(r.root.values), w = JSON.stringify(want);
      if (got !== w) ctx.fail("content", `${what} must become ${w}, it becomes ${got}`);
      if (r.errors.length !== errors.n || !r.errors.every((e) => e instanceof Error))
        ctx.fail("errors", `${what} has ${errors.n} malformed parts, ${r.errors.length} are reported`);
    }
    ctx.states(1);
    if (editor && !upper) {
      // the editor takes the import as it is
      editor.splice_at_range({ row_indices: [], start: 0, end: editor.get_input_tree().values.length }, r.root.values);
      const back = JSON.stringify(editor.get_input_tree().values);
      if (back !== JSON.stringify(r.root.values)) ctx.fail("editor", `${what}: the editor holds ${back} instead of the import`);
      ctx.count("given to the editor");
    }
  }
  ctx.transitions(1);
  ctx.count(errors.n ? "with errors" : "without errors");
}

const TOKENS = ["mi", "mn", "mo", "mtext", "ms"];
const ALL = ["mrow", "mfrac", "msqrt", "mroot", "msub", "msup", "msubsup", "munder", "mover", "munderover", "semantics", "mtable", "mtr", "mtd", "mstyle", "mspace", "merror", "annotation", "mmultiscripts", "foo", "math", ...TOKENS];
/** Every forest with n elements over the tags. */
function* forests(n, tags, depth) {
  if (n === 0) { yield []; return; }
  for (let k = 1; k <= n; k++) {
    for (const t of tags) {
      if (depth === 1 && k > 1) continue;
      for (const inner of k === 1 ? [[]] : forests(k - 1, tags, depth - 1))
        for (const rest of forests(n - k, tags, depth)) yield [[t, ...inner], ...rest];
    }
  }
}
/** Gives the leaf token elements distinct texts, in order. */
function texts(c, at = { n: 0 }) {
  const names = ["a", "7", "xy", "+", "z", "b"];
  return c.map((e) => {
    const kids = texts(e.slice(1), at);
    return !kids.length && TOKENS.includes(e[0]) ? [e[0], names[at.n++ % names.length]] : [e[0], ...kids];
  });
}
const show = (c) => markup(c);

export function c30(ctx, app) {
  ctx.assume("content of mstyle is ignored by the importer on purpose; it is only checked that this neither crashes nor damages the rest");
  ctx.assume("the DOM is a stand-in (ts/dom.mjs); MathML markup has been parsed by the browser before");
  const editor = () => {
    let e = null, n = 0;
    return () => {
      if (!e || n++ > 200) { e?.free(); e = new app.core.MathEditorBindings(app.core.DefaultParser); n = 0; }
      return e;
    };
  };
  const fresh = editor();
  const trees = (n, tags) => function* () { for (const f of forests(n, tags, 9)) yield ["math", ...texts(f)]; };
  for (const n of [0, 1, 2]) ctx.run(`every tree of ${n} elements over ${ALL.length} tags`, trees(n, ALL), show, (c) => judge(ctx, app, c, fresh()));
  ctx.run(`every tree of 3 elements over ${ALL.length} tags`, trees(3, ALL), show, (c) => judge(ctx, app, c, null));
  const few = ["mrow", "mfrac", "msqrt", "mroot", "msub", "msubsup", "munderover", "semantics", "foo", "mi"];
  if (ctx.thorough) ctx.run(`every tree of 4 elements over ${ALL.length} tags`, trees(4, ALL), show, (c) => judge(ctx, app, c, null));
  else ctx.run(`every tree of 4 elements over ${few.length} tags`, trees(4, few), show, (c) => judge(ctx, app, c, null));
  const five = ctx.pick(["mrow", "mfrac", "msubsup", "mi"], ["mrow", "mfrac", "msub", "msubsup", "munderover", "mroot", "foo", "mi"]);
  ctx.run(`every tree of 5 elements over ${five.length} tags`, trees(5, five), show, (c) => judge(ctx, app, c, fresh()));
  if (ctx.thorough) ctx.run("every tree of 6 elements over 5 tags", trees(6, ["mrow", "mfrac", "msubsup", "foo", "mi"]), show, (c) => judge(ctx, app, c, null));

  // tables, ragged ones and ones with foreign parts
  const cells = [["mtd"], ["mtd", ["mi", "a"]], ["mtd", ["mn", "12"], ["mfrac"]], ["mi", "b"]];
  function* seqs(items, max) { yield []; if (max > 0) for (const i of items) for (const r of seqs(items, max - 1)) yield [i, ...r]; }
  const rows = [...seqs(cells, 2)].map((r) => ["mtr", ...r]);
  rows.push(["mtr", ...Array(3).fill(cells[1])], ["mrow"], ["mtd"], ["mtr", ["mtd", ["mtable", ["mtr", ["mtd"], ["mtd"]], ["mtr"]]]]);
  ctx.run(`every table of up to ${ctx.pick(3, 4)} rows`, function* () {
    for (const r of seqs(rows, ctx.pick(3, 4))) yield ["math", ["mi", "p"], ["mtable", ...r], ["mi", "q"]];
  }, show, (c) => judge(ctx, app, c, null));

  // texts
  const letters = ["a", "1", " ", "\n", "\u00e9", "e\u0301", "\u0301", "\u{1F44D}", "\u{1F3FD}", "\u200d", "\u{1F469}", "\u00a0", '"', "\u{1D49C}", "\ud55c", "\u1112\u1161\u11ab", "\u2212", "\r\n"];
  const words = (max) => function* () {
    for (const t of TOKENS) for (const w of seqs(letters, max)) yield ["math", ["mi", "p"], ["msup", [t, w.join("")], [t, "q"]]];
  };
  ctx.run(`every text of up to ${ctx.pick(3, 4)} of ${letters.length} characters`, words(ctx.pick(3, 4)), show, (c) => judge(ctx, app, c, null));
  // text nodes between the elements carry nothing, except in token elements
  ctx.run("white space between the elements", function* () {
    for (const f of forests(3, ["mrow", "mfrac", "msub", "mtable", "mtr", "mtd", "mi"], 9)) {
      const spaced = (c) => (typeof c[1] === "string" && c.length === 2 ? c : [c[0], "\n  ", ...c.slice(1).flatMap((k) => [spaced(k), "\n "])]);
      yield spaced(["math", ...texts(f)]);
    }
  }, show, (c) => judge(ctx, app, c, null));
  // texts next to each other: none depends on another one
  const samples = ["x", "X", "xx", "a", "A", "1", "10", "01", "sin", "Sin", "lim", "Error", "\u00e9", "e\u0301", "e", "\u00df", "ss", "\uff21", "\u212b", "\u00c5", "\u1d465", "\u{1D465}", "\u2062", "\u2061", "-", "\u2212", "+", "=", "<", "&", "'", '"', "(", "|", "\u2032", " ", "", "2", "\u222b", "toString", "__proto__"];
  ctx.run(`every pair of ${samples.length} texts`, function* () {
    for (const a of samples) for (const b of samples) for (const t of TOKENS) for (const u of ["mi", "mo", "mtext"]) yield ["math", [t, a], ["msub", [u, b], ["mrow", [t, b], [u, a]]], [t, a]];
  }, show, (c) => judge(ctx, app, c, null));
  // comments and attributes that say nothing about the content
  ctx.run("comments and attributes", function* () {
    const extra = [[], [{ comment: " y " }], [{ attribute: ["class", "c"] }], [{ attribute: ["id", "mi"] }, { attribute: ["xmlns", "http://www.w3.org/1998/Math/MathML"] }, { comment: "" }]];
    for (const f of forests(3, ["mrow", "mfrac", "msub", "msubsup", "msqrt", "mtable", "mtr", "mtd", "semantics", "mi", "mtext"], 9)) for (const before of extra) for (const after of extra) {
      if (!before.length && !after.length) continue;
      const dress = (c) => (typeof c[1] === "string" ? [c[0], ...before, c[1], ...after, c[1]] : [c[0], ...before, ...c.slice(1).flatMap((k) => [dress(k), ...after.filter((x) => !x.attribute)])]);
      yield dress(["math", ...texts(f)]);
    }
  }, show, (c) => judge(ctx, app, c, null));
  // nesting and length
  ctx.run("deep and long trees", function* () {
    for (const t of ["mrow", "msqrt", "mfrac", "msup", "msubsup", "mroot", "semantics", "mtable"])
      for (const n of [1, 5, 20, ctx.pick(60, 300)]) {
        let c = ["mi", "x"];
        for (let i = 0; i < n; i++) {
          const y = ["mn", String(i % 10)];
          c = t === "mtable" ? [t, ["mtr", ["mtd", c], ["mtd", y]]] : t === "mrow" || t === "msqrt" || t === "semantics" ? [t, c] : t === "msubsup" ? [t, y, c, y] : [t, c, y];
        }
        yield ["math", c];
        yield ["math", ...Array.from({ length: n * 5 }, () => [t === "mtable" ? "mrow" : t, ["mi", "x"], ["mi", "y"]])];
      }
  }, show, (c) => judge(ctx, app, c, null), null, 1);
}
