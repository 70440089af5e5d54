// C31: rendering, C32: addresses in the rendered formula, C35: clicking.
import { FElement, FText, rectOf, scrollTo } from "./dom.mjs";
import * as F from "./formulas.mjs";

const PLACEHOLDER = new Set(["⬚", "\u00a0\u00a0"]);
/** The texts and containers shown, in the order of the formula (an mroot shows its index second). */
function shown(n, out = { texts: [], boxes: [] }) {
  if (n instanceof FText) { if (!PLACEHOLDER.has(n.data) && n.data !== "") out.texts.push(n); return out; }
  if (["mfrac", "mroot", "mtable"].includes(n.localName)) out.boxes.push(n);
  const kids = n.localName === "mroot" ? [...n.childNodes].reverse() : n.childNodes;
  for (const k of kids) shown(k, out);
  return out;
}
const ARITY = { mfrac: 2, mroot: 2, msub: 2, msup: 2, munder: 2, mover: 2, msubsup: 3, munderover: 3 };
function badMarkup(n) {
  if (!(n instanceof FElement)) return null;
  const k = n.children, t = n.localName;
  if (ARITY[t] && (k.length !== ARITY[t] || n.childNodes.length !== k.length)) return `<${t}> with ${k.length} children`;
  if (t === "mtable" && !k.every((c) => c.localName === "mtr")) return "<mtable> with something else than rows";
  if (t === "mtr" && !k.every((c) => c.localName === "mtd")) return "<mtr> with something else than cells";
  if (t === "mtr" && n.parentNode?.localName !== "mtable") return "<mtr> outside of a table";
  for (const c of k) { const e = badMarkup(c); if (e) return e; }
  return null;
}
function setup(ctx, app) {
  const names = app.core.ModulesCreator.get_syntax_node_name_map();
  const map = new Map(Array.from(names.values, ([k, v]) => [app.renderer.joinPathIdentifier(k), v]));
  return new app.renderer.MathMLRenderer(map);
}
const prepare = (app) => (rows) => globalThis.__call("parse", app.core.DefaultParser.h, [rows]);
function render(ctx, app, renderer, row, tree) {
  if (tree.panic) ctx.fail("parser", tree.panic);
  const result = renderer.renderAll({ errors: null, value: tree });
  const root = result.getElement(app.rows.RowIndices.default());
  const math = document.createElementNS("http://www.w3.org/1998/Math/MathML", "math");
  math.append(...root.getElements());
  ctx.body.replaceChildren(math);
  return { result, root, math };
}
const boxesOf = (values) => values.flatMap((n) => (n.Container ? [n.Container, ...n.Container[1].values.flatMap((r) => boxesOf(r.values))] : []));

// ------------------------------------------------------------------ C31
export function c31(ctx, app) {
  let renderer;
  ctx.run("construction", function* () { yield "names"; }, (c) => c, () => { renderer = setup(ctx, app); }, null, 1);
  renderer ??= setup(ctx, app);
  ctx.assume("syntax trees come from the real parser (with the chumsky stand-in) over the module list of src/core/index.ts");
  for (const [phase, cases] of F.phases(ctx)) {
    ctx.run(phase, cases, F.show, (row, tree) => {
      const { math } = render(ctx, app, renderer, row, tree);
      const bad = badMarkup(math);
      if (bad) ctx.fail("markup", bad);
      const { texts, boxes } = shown(math);
      const got = texts.map((t) => t.data), want = F.symbolsOf(row);
      if (got.length !== want.length || got.some((t, i) => t !== want[i])) ctx.fail("content", `the formula has the symbols ${JSON.stringify(want)}, shown are ${JSON.stringify(got)}`);
      const containers = boxesOf(row).filter((c) => !["Sup", "Sub"].includes(c[0]));
      const tags = { Fraction: "mfrac", Root: "mroot", Table: "mtable" };
      if (containers.length !== boxes.length || containers.some((c, i) => tags[c[0]] !== boxes[i].localName))
        ctx.fail("containers", `the formula has the containers ${containers.map((c) => c[0])}, shown are ${boxes.map((b) => b.localName)}`);
      containers.forEach(([kind, g], i) => {
        const b = boxes[i];
        const cells = kind === "Table" ? b.children.flatMap((r) => r.children) : kind === "Root" ? [...b.children].reverse() : b.children;
        if (kind === "Table" && b.children.some((r) => r.children.length !== g.width)) ctx.fail("table", `a table of width ${g.width} is shown with rows of ${b.children.map((r) => r.children.length)} cells`);
        if (cells.length !== g.values.length) ctx.fail("cells", `a ${kind} of ${g.values.length} cells is shown with ${cells.length}`);
        g.values.forEach((r, k) => {
          const inside = shown(cells[k]).texts.map((t) => t.data).join("|"), w = F.symbolsOf(r.values).join("|");
          if (inside !== w) ctx.fail("cells", `cell ${k} of a ${kind} holds ${w}, shown is ${inside}`);
        });
      });
      ctx.states(1);
      ctx.transitions(texts.length + boxes.length);
    }, prepare(app));
  }
}

// ------------------------------------------------------------------ C32
const EPS = 1e-6;
/** For every node of every row: the box its content is drawn in (null: draws nothing of its own). */
function drawn(row, math) {
  const { texts, boxes } = shown(math);
  let t = 0, b = 0;
  const at = new Map();
  (function walk(values, path) {
    const list = [];
    at.set(JSON.stringify(path), list);
    values.forEach((n, i) => {
      if (n.Symbol !== undefined) { const r = rectOf(texts[t]); list.push({ r, texts: [r], symbol: true }); t++; return; }
      const el = ["Sup", "Sub"].includes(n.Container[0]) ? null : boxes[b++];
      const from = t;
      n.Container[1].values.forEach((r, k) => walk(r.values, [...path, [i, k]]));
      const inner = texts.slice(from, t).map(rectOf);
      const all = el ? [rectOf(el)] : inner;
      list.push({ r: all.length ? { left: Math.min(...all.map((x) => x.left)), right: Math.max(...all.map((x) => x.right)) } : null, texts: inner });
    });
  })(row, []);
  return at;
}
/** The syntax node of a row, found by searching the whole tree for the container at that place. */
function findRow(tree, path) {
  let node = tree;
  for (const [c, r] of path) {
    const found = [];
    (function search(n) {
      if (n.children.NewRows && n.range.start === c) found.push(n);
      for (const k of n.children.Children ?? []) search(k);
    })(node);
    if (found.length !== 1) return null;
    node = found[0].children.NewRows.values[r];
    if (!node) return null;
  }
  return node;
}
const throws = (f) => { try { f(); return false; } catch (e) { if (e instanceof RangeError && /call stack/.test(e.message)) throw e; return true; } };
const finite = (...v) => v.every((x) => typeof x === "number" && Number.isFinite(x));

function mirrors(ctx, el, node, index) {
  if (el.syntaxTree !== node) ctx.fail("mirror", "a rendered element does not belong to its syntax node");
  if (JSON.stringify(el.rowIndex) !== JSON.stringify(index)) ctx.fail("row index", `the rendered element of the syntax node ${JSON.stringify(node.range)} says it is row ${JSON.stringify(el.rowIndex)}, it is ${JSON.stringify(index)}`);
  const rows = node.children.NewRows?.values, kids = rows ?? node.children.Children ?? [];
  const got = el.getChildren();
  if (got.length !== kids.length) ctx.fail("mirror", `${kids.length} syntax nodes have ${got.length} rendered elements`);
  kids.forEach((k, i) => mirrors(ctx, got[i], k, rows ? [node.range.start, i] : null));
}
/** Whether a row is (in) the row at `path`. */
const inside = (path, other) => other === JSON.stringify(path) || path.length === 0 || other.startsWith(JSON.stringify(path).slice(0, -1) + ",");
function addresses(ctx, app, row, tree, { result, root, math }) {
  const { RowIndices } = app.rows;
  mirrors(ctx, root, tree, null);
  const boxes = drawn(row, math);
  for (const { path, values } of F.rowsOf(row)) {
    const where = JSON.stringify(path);
    const indices = path.reduce((a, i) => a.addRowIndex(i), RowIndices.default());
    if (JSON.stringify(new RowIndices(path).indices) !== JSON.stringify(indices.indices) || JSON.stringify([...indices]) !== where || indices.length !== path.length)
      ctx.fail("address", `the address ${where} cannot be built step by step`);
    const el = result.getElement(indices);
    const want = findRow(tree, path);
    if (!want || el.syntaxTree !== want) ctx.fail("resolve", `address ${where} resolves to the rendered element of ${JSON.stringify(el.syntaxTree.range)} ${JSON.stringify(el.syntaxTree).slice(0, 200)}`);
    if (app.core.getNodeWithRowIndices(tree, indices) !== want) ctx.fail("resolve", `address ${where} resolves to another syntax node`);
    if (el.syntaxTree.range.start !== 0 || el.syntaxTree.range.end !== values.length) ctx.fail("range", `row ${where} of ${values.length} nodes is rendered with the range ${JSON.stringify(el.syntaxTree.range)}`);
    const size = result.getViewportCaretSize(indices);
    if (!(finite(size) && size > 0)) ctx.fail("size", `caret size ${size}`);
    const bounds = result.getViewportRowBounds(indices);
    const rects = el.getElements().map(rectOf);
    const left = Math.min(...rects.map((r) => r.left)), right = Math.max(...rects.map((r) => r.right));
    const top = Math.min(...rects.map((r) => r.top)), bottom = Math.max(...rects.map((r) => r.bottom));
    const own = boxes.get(where);
    for (const n of own) for (const r of n.texts)
      if (bounds.x > r.left + EPS || bounds.y > r.top + EPS || bounds.x + bounds.width < r.right - EPS || bounds.y + bounds.height < r.bottom - EPS)
        ctx.fail("bounds", `the bounds of row ${where} do not contain its content`);
    for (const [other, list] of boxes) if (!inside(path, other)) for (const n of list) if (n.symbol && n.r.right > n.r.left)
      if (bounds.x <= n.r.left + EPS && bounds.y <= n.r.top + EPS && bounds.x + bounds.width >= n.r.right - EPS && bounds.y + bounds.height >= n.r.bottom - EPS)
        ctx.fail("bounds", `the bounds of row ${where} contain a symbol of row ${other}`);
    // every caret position
    const places = [];
    for (let o = 0; o <= values.length; o++) {
      const p = el.getCaretPosition(o);
      places.push(p);
      if (!finite(p.x, p.y) || p.x < left - EPS || p.x > right + EPS || p.y < top - EPS || p.y > bottom + EPS)
        ctx.fail("place", `offset ${o} of row ${where} is drawn at ${JSON.stringify(p)}, the row at ${JSON.stringify({ left, right, top, bottom })}`);
      const before = own[o - 1]?.r, after = own[o]?.r;
      if ((before && p.x < before.right - EPS) || (after && p.x > after.left + EPS))
        ctx.fail("place", `offset ${o} of row ${where} is drawn at x=${p.x}, between ${before?.right} and ${after?.left} is expected`);
      if (o > 0 && p.x < places[o - 1].x - EPS) ctx.fail("place", `offset ${o} of row ${where} is left of the previous one`);
      ctx.states(1);
    }
    for (const o of [-1, values.length + 1]) if (!throws(() => el.getCaretPosition(o))) ctx.fail("place", `offset ${o} of row ${where} (${values.length} nodes) has a place`);
    // every selection
    for (let s = 0; s <= values.length; s++) for (let e = s; e <= values.length; e++) {
      const a = result.getViewportSelection({ indices, start: s, end: e }), b = result.getViewportSelection({ indices, start: e, end: s });
      const q = a.rect;
      if (JSON.stringify(a.rect) !== JSON.stringify(b.rect) || a.baseline !== b.baseline) ctx.fail("selection", `selecting ${s}..${e} of row ${where} forwards and backwards is drawn differently`);
      if (!finite(q.x, q.y, q.width, q.height, a.baseline) || q.width < 0 || q.height < 0) ctx.fail("selection", `selection ${s}..${e} of row ${where} is drawn as ${JSON.stringify(q)}`);
      if (Math.abs(q.x - places[s].x) > EPS || Math.abs(q.x + q.width - places[e].x) > EPS) ctx.fail("selection", `selection ${s}..${e} of row ${where} is drawn from ${q.x} to ${q.x + q.width}, its ends are at ${places[s].x} and ${places[e].x}`);
      if ((s === e) !== a.isCollapsed && places[s].x !== places[e].x) ctx.fail("selection", "isCollapsed");
      for (const n of own.slice(s, e)) for (const r of n.texts)
        if (q.x > r.left + EPS || q.y > r.top + EPS || q.x + q.width < r.right - EPS || q.y + q.height < r.bottom - EPS)
          ctx.fail("selection", `selection ${s}..${e} of row ${where} is drawn as ${JSON.stringify(q)}, which does not cover ${JSON.stringify(r)}`);
      // and a selected symbol alone is marked no higher than it is
      if (e === s + 1 && values[s].Symbol !== undefined) {
        const r = own[s].texts;
        if (r.length > 0 && (q.y < Math.min(...r.map((v) => v.top)) - EPS || q.y + q.height > Math.max(...r.map((v) => v.bottom)) + EPS))
          ctx.fail("selection", `selecting only symbol ${s} of row ${where} is drawn as ${JSON.stringify(q)}, the symbol as ${JSON.stringify(r)}`);
      }
      ctx.transitions(1);
    }
    // addresses that do not exist
    const absent = [[-1, 0], [values.length, 0], [values.length + 1, 0]];
    values.forEach((n, i) => { if (n.Container) absent.push([i, n.Container[1].values.length], [i, -1]); else absent.push([i, 0], [i, 1]); });
    for (const i of absent) {
      if (!throws(() => result.getElement(indices.addRowIndex(i)))) ctx.fail("absent", `the rendered formula has a row at ${JSON.stringify([...path, i])}`);
      if (!throws(() => app.core.getNodeWithRowIndices(tree, indices.addRowIndex(i)))) ctx.fail("absent", `the syntax tree has a row at ${JSON.stringify([...path, i])}`);
      ctx.count("absent addresses");
    }
    ctx.count("rows");
  }
}
export function c32(ctx, app) {
  const renderer = setup(ctx, app);
  ctx.assume("geometry comes from the layout of the DOM stand-in (ts/dom.mjs): one box per character, rows on a baseline, padded containers");
  for (const [phase, cases] of F.phases(ctx))
    ctx.run(phase, cases, F.show, (row, tree) => addresses(ctx, app, row, tree, render(ctx, app, renderer, row, tree)), prepare(app));
}

// ------------------------------------------------------------------ C35
export function c35(ctx, app) {
  const renderer = setup(ctx, app);
  const { RowIndices } = app.rows;
  ctx.assume("geometry comes from the layout of the DOM stand-in (ts/dom.mjs): one box per character, rows on a baseline, padded containers");
  const step = ctx.pick(7, 3);
  for (const [phase, cases] of F.phases(ctx)) ctx.run(phase, cases, F.show, (row, tree) => {
    scrollTo(0, 0);
    const { result, math } = render(ctx, app, renderer, row, tree);
    const rows = F.rowsOf(row), places = [];
    for (const { path, values } of rows) {
      const el = result.getElement(new RowIndices(path));
      const own = [];
      for (let o = 0; o <= values.length; o++) own.push(el.getCaretPosition(o));
      places.push({ path, key: JSON.stringify(path), own, box: el.getElements().map(rectOf) });
    }
    const dist = (a, b) => Math.hypot(a.x - b.x, a.y - b.y);
    const click = (p) => {
      const r = result.getLayoutPosition(p);
      const key = JSON.stringify(r.indices.indices);
      const at = places.find((x) => x.key === key);
      if (!at || !at.own[r.offset]) ctx.fail("address", `clicking at ${JSON.stringify(p)} gives offset ${r.offset} of row ${key}, which does not exist`);
      ctx.transitions(1);
      return { ...r, key, at, d: dist(p, at.own[r.offset]) };
    };
    const symbols = drawn(row, math);
    ctx.states(places.reduce((n, x) => n + x.own.length, 0));
    // clicking into an empty row: there
    for (const { key, own, box } of places) if (own.length === 1) {
      const q = box[0], r = click({ x: (q.left + q.right) / 2, y: (q.top + q.bottom) / 2 });
      if (r.key !== key) ctx.fail("empty", `clicking into the empty row ${key} gives offset ${r.offset} of row ${r.key}`);
    }
    // clicking beside a formula without containers: its end on that side
    if (places.length === 1) {
      const { key, own: [...own] } = places[0], q = rectOf(math), first = own[0], last = own[own.length - 1];
      for (const far of [1, 50, 5000]) for (const [x, p] of [[q.left - far, first], [q.right + far, last]]) {
        const r = click({ x, y: (q.top + q.bottom) / 2 });
        if (dist(r.at.own[r.offset], p) > EPS) ctx.fail("beside", `clicking ${x < q.left ? "left" : "right"} of the formula gives offset ${r.offset}`);
      }
    }
    // clicking on a symbol: next to it, on the nearer side
    for (const [key, own] of symbols) own.forEach((n, i) => {
      if (!n.symbol) return;
      const q = n.r, w = q.right - q.left, h = q.bottom - q.top;
      for (const fx of [0.1, 0.3, 0.45, 0.55, 0.7, 0.9]) for (const fy of [0.1, 0.5, 0.9]) {
        const r = click({ x: q.left + fx * w, y: q.top + fy * h });
        const want = fx < 0.5 ? i : i + 1;
        if (r.key !== key || r.offset !== want) ctx.fail("symbol", `clicking on the ${fx < 0.5 ? "left" : "right"} half of the symbol ${i} of row ${key} gives offset ${r.offset} of row ${r.key}`);
      }
    });
    // clicking anywhere: some place of the formula
    const b = rectOf(math);
    for (let x = b.left - 2 * step; x <= b.right + 2 * step; x += step) for (let y = b.top - 2 * step; y <= b.bottom + 2 * step; y += step) {
      const p = { x, y }, r = click(p);
      if (b.left <= x && x <= b.right && b.top <= y && y <= b.bottom) continue;
      // beside of the formula: the nearest place
      for (const z of places) for (let o = 0; o < z.own.length; o++) if (dist(p, z.own[o]) < r.d - EPS)
        ctx.fail("nearest", `clicking beside of the formula at ${JSON.stringify(p)} gives offset ${r.offset} of row ${r.key}, offset ${o} of row ${z.key} is nearer`);
    }
    // the same after the page was scrolled
    const [dx, dy] = [37, -211];
    scrollTo(dx, dy);
    for (const [key, own] of symbols) own.forEach((n, i) => {
      if (!n.symbol) return;
      const q = n.r, w = q.right - q.left, h = q.bottom - q.top;
      for (const fx of [0.3, 0.7]) {
        const { indices, offset } = result.getLayoutPosition({ x: q.left - dx + fx * w, y: q.top - dy + 0.5 * h });
        const got = JSON.stringify(indices.indices), want = fx < 0.5 ? i : i + 1;
        if (got !== key || offset !== want) ctx.fail("scrolled", `after scrolling, clicking on the ${fx < 0.5 ? "left" : "right"} half of the symbol ${i} of row ${key} gives offset ${offset} of row ${got}`);
        ctx.transitions(1);
      }
    });
  }, prepare(app));
}
