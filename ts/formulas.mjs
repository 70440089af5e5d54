// Formulas for the front end, built from every kind of token the application knows.
const sym = (s) => ({ Symbol: s });
export const chars = (s) => [...new Intl.Segmenter("en", { granularity: "grapheme" }).segment(s)].map((x) => sym(x.segment));
export const box = (kind, width, ...rows) => ({ Container: [kind, { values: rows.map((values) => ({ values })), width }] });
const words = (s) => s.split(" ").map((t) => [t, chars(t)]);
const frac = (a, b) => box("Fraction", 1, a, b);
export const TOKENS = new Map([
  ...words('1 20 3.14 x ab é ∞ ⊤ ⊥ "" + - * / = > < ≥ ≤ , ∧ ∨ ¬ ⇔ ⟹ lim limsup liminf ∑ ∫ ! ^ ( ) ? . " \\ }'),
  ["␣", chars(" ")],
  ['"a (\\""', chars('"a (\\""')],
  ["frac[1|x]", [frac(chars("1"), chars("x"))]],
  ["frac[|]", [frac([], [])]],
  ["root[|1+x]", [box("Root", 2, [], chars("1+x"))]],
  ["table2[x|1|1+x|]", [box("Table", 2, chars("x"), chars("1"), chars("1+x"), [])]],
  ["table1[12|y]", [box("Table", 1, chars("12"), chars("y"))]],
  ["sup[1]", [box("Sup", 1, chars("1"))]],
  ["sub[1+x]", [box("Sub", 1, chars("1+x"))]],
  ["sub[]", [box("Sub", 1, [])]],
]);
/** Symbols of more than one code unit or code point, symbols that draw nothing, and look-alikes. */
export const ODD = ["\u00e9", "e\u0301", "\u{1F44D}", "\u{1F468}\u200D\u{1F469}\u200D\u{1F467}", "\u{1F1E9}\u{1F1EA}", "\u0301", "\u200b", "\u00a0", "\u{1D465}", "\u0628", "\t", "\n", "\r\n", "'", "&", "<", "$", "#", "%", "|", "[", "_", ":", "\u221e", "\ufeff", "\ufffd"];
const T = (names) => names.map((n) => { if (!TOKENS.has(n)) throw new Error("no token " + n); return TOKENS.get(n); });
function* seqs(items, max) {
  yield [];
  if (max > 0) for (const i of items) for (const r of seqs(items, max - 1)) yield [...i, ...r];
}
/** Exactly the sequences of n tokens. */
function* exactly(items, n) {
  if (n === 0) { yield []; return; }
  for (const i of items) for (const r of exactly(items, n - 1)) yield [...i, ...r];
}
const kinds = [["Fraction", 1, 2], ["Root", 2, 2], ["Sup", 1, 1], ["Sub", 1, 1], ["Table", 2, 4], ["Table", 1, 2]];
/** Every formula of up to `max` nodes over one letter, a space and the container kinds, in every nesting. */
export function* shapes(max, leafs, kindNos) {
  const memo = new Map();
  function rows(n) { // all rows with exactly n nodes in total
    if (memo.has(n)) return memo.get(n);
    const out = [];
    if (n === 0) out.push([]);
    else {
      for (const l of leafs) for (const r of rows(n - 1)) out.push([sym(l), ...r]);
      for (const k of kindNos) {
        const [name, width, cells] = kinds[k];
        for (let inner = 0; inner < n; inner++)
          for (const c of split(inner, cells)) for (const r of rows(n - 1 - inner)) out.push([box(name, width, ...c), ...r]);
      }
    }
    memo.set(n, out);
    return out;
  }
  function* split(n, cells) {
    if (cells === 1) { for (const r of rows(n)) yield [r]; return; }
    for (let k = 0; k <= n; k++) for (const r of rows(k)) for (const rest of split(n - k, cells - 1)) yield [r, ...rest];
  }
  for (let n = 0; n <= max; n++) yield* rows(n);
}
export function phases(ctx) {
  const all = [...TOKENS.values()];
  const out = [];
  const add = (name, gen) => out.push([name, gen]);
  for (const n of [0, 1, 2]) add(`every formula of ${n} of ${all.length} tokens`, () => exactly(all, n));
  const deep = ctx.id === "C31" ? 3 : ctx.pick(0, 3);
  if (deep) add(`every formula of 3 of ${all.length} tokens`, () => exactly(all, 3));
  else {
    const some = T(["20", "x", '"a (\\""', "+", "-", "=", ",", "lim", "∑", "!", "(", ")", "␣", "?", "frac[1|x]", "root[|1+x]", "table2[x|1|1+x|]", "sup[1]", "sub[]"]);
    add(`every formula of 3 of ${some.length} tokens`, () => exactly(some, 3));
  }
  const mixed = T(["12".length ? "20" : "", "+", "lim", "!", "␣", "(", ")", "sup[1]", "sub[1+x]", "frac[1|x]"]);
  add(`every formula of 4 of ${mixed.length} tokens`, () => exactly(mixed, 4));
  const scripts = T(["x", "∑", "+", "␣", "sup[1]", "sub[]", "("]);
  const n = ctx.pick(5, 6);
  add(`every formula of ${n} of ${scripts.length} tokens`, () => exactly(scripts, n));
  const small = ctx.pick(4, 5);
  add(`every nesting of up to ${small} nodes`, () => shapes(small, ["x"], [0, 1, 2, 3, 4, 5]));
  add(`every nesting of up to ${small + 1} nodes, with spaces`, () => shapes(small + 1, ["x", " "], [0, 2]));
  add("odd symbols alone, side by side, and inside of names, numbers and strings", function* () {
    for (const s of ODD) {
      const n = sym(s);
      const rows = [[n], [n, n], [sym("x"), n, sym("y")], [n, sym("x")], [sym("x"), n], [...chars('"a'), n, ...chars('b"')], [...chars('"'), n, ...chars('"')], [...chars("lim"), n], [sym("1"), n, sym("2")], [sym("("), n, sym(")")], [sym("x"), sym("+"), n, sym("*"), sym("y")], [n, box("Sup", 1, [n])]];
      yield* rows;
      for (const [k, w, c] of kinds) for (const r of rows.slice(0, 7)) yield [n, box(k, w, ...Array.from({ length: c }, (_, i) => (i === 0 ? r : [n]))), n];
      for (const o of ODD) { yield [n, sym(o)]; yield [...chars('"'), n, sym(o), ...chars('"')]; yield [sym("x"), n, sym(o), sym("x")]; }
    }
  });
  add("containers in containers, each around every pair of tokens", function* () {
    for (const [k, w, c] of kinds) for (let i = 0; i < c; i++) for (const inner of exactly(all, 1)) for (const before of [[], chars("1+"), chars("x"), chars("( ")]) {
      const cells = Array.from({ length: c }, (_, j) => (i === j ? inner : chars("y")));
      const b = box(k, w, ...cells);
      for (const [k2, w2, c2] of kinds) for (let j = 0; j < c2; j++)
        yield [...before, box(k2, w2, ...Array.from({ length: c2 }, (_, m) => (m === j ? [...before, b, ...inner] : []))), ...inner];
    }
  });
  add("large formulas: tables, rows and nestings with two-digit sizes", function* () {
    const cell = (k) => [[], chars("x"), chars("1+"), chars(`${k}y`), [box("Sup", 1, chars("2"))], [box("Fraction", 1, [], chars(`${k}`))]][k % 6];
    const table = (w, h, from) => box("Table", w, ...Array.from({ length: w * h }, (_, k) => cell(k + from)));
    for (let w = 1; w <= 5; w++) for (let h = 1; h <= 5; h++) {
      yield [table(w, h, w + h)];
      yield [...chars("1+"), box("Sup", 1, [table(w, h, h)]), ...chars("-"), table(h, w, 1), ...chars("!")];
    }
    for (const [w, h] of [[1, 13], [13, 1], [11, 3], [3, 11]]) yield [table(w, h, 0), ...chars("x")];
    for (const n of [12, 25, 40]) for (const t of ["1+", "x ", "ab*", "-", "x!", "a,", "lim", "12", " "]) yield chars(t.repeat(n).slice(0, n));
    for (const [k, w, c] of kinds) {
      yield Array.from({ length: 12 }, (_, i) => box(k, w, ...Array.from({ length: c }, (_, j) => cell(i + j))));
      for (const [b, a] of [["", ""], ["x", "+1"], ["1+", " "]]) for (let at = 0; at < c; at += Math.max(1, c - 1)) {
        let r = chars("z");
        for (let d = 0; d < 12; d++) {
          r = [...chars(b), box(k, w, ...Array.from({ length: c }, (_, j) => (j === at ? r : chars(d % 2 ? "y" : "")))), ...chars(a)];
          if (d === 5 || d === 11) yield r;
        }
      }
    }
    let r = chars("z"), q = chars("(z)");
    for (let d = 0; d < 15; d++) {
      const [k, w, c] = kinds[d % kinds.length];
      r = [...chars("a"), box(k, w, ...Array.from({ length: c }, (_, j) => (j === d % c ? r : chars("1")))), ...chars("+b")];
      q = [...chars("f("), ...q, ...chars(")")];
    }
    yield r;
    yield q;
  });
  return out;
}
export const show = (row) => row.map((n) => (n.Symbol !== undefined ? n.Symbol : `${n.Container[0].toLowerCase()}${n.Container[0] === "Table" ? n.Container[1].width : ""}[${n.Container[1].values.map((r) => show(r.values)).join("|")}]`)).join("");
/** The rows of a formula with their addresses. */
export function rowsOf(values, path = []) {
  const out = [{ path, values }];
  values.forEach((n, i) => { if (n.Container) n.Container[1].values.forEach((r, k) => out.push(...rowsOf(r.values, [...path, [i, k]]))); });
  return out;
}
export const symbolsOf = (values) => values.flatMap((n) => (n.Symbol !== undefined ? [n.Symbol] : n.Container[1].values.flatMap((r) => symbolsOf(r.values))));
