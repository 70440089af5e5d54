// C36: the <math-editor> component under every sequence of user events and every interleaving of its deferred work.
import { FElement, FText, FComment, made, rectOf, registry, reported, scrolled, scrollTo, walk } from "./dom.mjs";
import { Panic } from "./rpc.mjs";

// ---------------------------------------------------------------- deferred work
export let timers = [];
export function noTimers() { timers = []; }
export function tick() { const f = timers.shift(); if (f) f(); }
let intercepted = false;
function interceptTimers() {
  if (intercepted) return;
  intercepted = true;
  let id = 1;
  const later = (f, _ms, ...args) => { timers.push(Object.assign(() => f(...args), { id })); return id++; };
  globalThis.setTimeout = later;
  globalThis.setImmediate = later;
  globalThis.queueMicrotask = later;
  globalThis.requestAnimationFrame = (f) => later(f, 0, 0);
  globalThis.clearTimeout = globalThis.clearImmediate = globalThis.cancelAnimationFrame = (k) => { timers = timers.filter((t) => t.id !== k); };
}

/** The bindings that an element of the page made for itself. */
const owners = new WeakMap();
export const editorOf = (element) => owners.get(element) ?? element.mathEditor;
globalThis.__made = (bindings) => { if (made.last) { owners.set(made.last, bindings); made.last = null; } };

// ---------------------------------------------------------------- events
export const sym = (...s) => s.map((v) => ({ Symbol: v }));
export const fraction = (a, b) => ({ Container: ["Fraction", { values: [{ values: a }, { values: b }], width: 1 }] });
export class Ev {
  constructor(type, props = {}) { this.type = type; this.defaultPrevented = false; Object.assign(this, props); }
  preventDefault() { this.defaultPrevented = true; }
}
export class Clipboard {
  constructor(data = {}) { this.data = data; }
  setData(k, v) { this.data[k] = v; }
  getData(k) { return this.data[k] ?? ""; }
}
const NOTHING = () => { };
export const key = (k, code, edit, extra = {}) => ({ on: "input", make: () => new Ev("keydown", { key: k, code, ctrlKey: false, shiftKey: false, altKey: false, metaKey: false, repeat: false, ...extra }), edit });
const input = (inputType, data, edit) => ({ on: "input", deferred: true, make: () => new Ev("beforeinput", { inputType, data, isComposing: false }), edit });
export const paste = (data, edit) => ({ on: "input", make: () => new Ev("paste", { clipboardData: new Clipboard(data) }), edit });
/** A pointer event at a place given as a fraction of the shown formula. */
export const pointer = (type, fx, fy, edit, extra = {}) => ({
  on: "formula", at: [fx, fy],
  make: (p) => new Ev(type, { clientX: p.x, clientY: p.y, x: p.x, y: p.y, pageX: p.x + scrolled.x, pageY: p.y + scrolled.y, screenX: p.x + 70, screenY: p.y + 190, isPrimary: true, pointerId: 1, button: type === "pointermove" ? -1 : 0, buttons: type === "pointerup" ? 0 : 1, detail: type.startsWith("mouse") ? 1 : 0, ...extra }),
  edit,
});
const json = (nodes) => JSON.stringify({ version: 1, data: nodes });
const pasted = [...sym("p"), fraction(sym("q"), [])];
export const EVENTS = {
  left: key("ArrowLeft", "ArrowLeft", (e) => e.move_caret("Left", "Char")),
  right: key("ArrowRight", "ArrowRight", (e) => e.move_caret("Right", "Char")),
  up: key("ArrowUp", "ArrowUp", (e) => e.move_caret("Up", "Char")),
  down: key("ArrowDown", "ArrowDown", (e) => e.move_caret("Down", "Char")),
  undo: key("z", "KeyZ", (e) => e.undo(), { ctrlKey: true }),
  redo: key("y", "KeyY", (e) => e.redo(), { ctrlKey: true }),
  z: key("z", "KeyZ", NOTHING),
  y: key("y", "KeyY", NOTHING),
  type_x: input("insertText", "x", (e) => e.insert_at_caret(["x"])),
  type_plus: input("insertText", "+", (e) => e.insert_at_caret(["+"])),
  type_many: input("insertText", "1e\u0301)", (e) => e.insert_at_caret(["1", "e\u0301", ")"])),
  type_sum: input("insertText", "sum", (e) => e.insert_at_caret(["s", "u", "m"])),
  type_none: input("insertText", null, NOTHING),
  compose: input("insertCompositionText", "k", NOTHING),
  backspace: input("deleteContentBackward", null, (e) => e.remove_at_caret("Left", "Char")),
  delete: input("deleteContentForward", null, (e) => e.remove_at_caret("Right", "Char")),
  copy: { on: "input", make: () => new Ev("copy", { clipboardData: new Clipboard() }), edit: NOTHING, copies: true },
  cut: { on: "input", make: () => new Ev("cut", { clipboardData: new Clipboard() }), edit: (e) => e.remove_at_caret("Range", "Char"), copies: true },
  cut_none: { on: "input", make: () => new Ev("cut", { clipboardData: null }), edit: NOTHING },
  paste: paste({ "application/json": json(pasted) }, (e) => e.paste(json(pasted), "JsonInputTree")),
  paste_plain: paste({ "text/plain": json(sym("t")) }, (e) => e.paste(json(sym("t")), "JsonInputTree")),
  paste_bad: paste({ "text/plain": "hello" }, NOTHING, ),
  press_start: pointer("pointerdown", 0.01, 0.5, (e, p, s) => { s.pressed = true; e.start_selection(p, "Char"); }),
  press_middle: pointer("pointerdown", 0.45, 0.4, (e, p, s) => { s.pressed = true; e.start_selection(p, "Char"); }),
  press_end: pointer("pointerdown", 0.999, 0.5, (e, p, s) => { s.pressed = true; e.start_selection(p, "Char"); }),
  press_second: pointer("pointerdown", 0.45, 0.4, NOTHING, { isPrimary: false }),
  drag: pointer("pointermove", 0.8, 0.7, (e, p, s) => { if (s.pressed) e.extend_selection(p); }),
  drag_back: pointer("pointermove", 0.2, 0.3, (e, p, s) => { if (s.pressed) e.extend_selection(p); }),
  release: pointer("pointerup", 0.95, 0.5, (e, p, s) => { if (s.pressed) { e.extend_selection(p); e.finish_selection(); } s.pressed = false; }),
  cancel: pointer("pointercancel", 0.3, 0.6, (e, p, s) => { if (s.pressed) { e.extend_selection(p); e.finish_selection(); } s.pressed = false; }),
  set: { set: "<math><mi>u</mi><mo>-</mo></math>", edit: (e, _p, _s, len) => e.splice_at_range({ row_indices: [], start: 0, end: len }, sym("u", "-")) },
  clear: { set: null, edit: (e, _p, _s, len) => e.splice_at_range({ row_indices: [], start: 0, end: len }, []) },
};
/** Less common events, explored in phases of their own. */
const RARE = {
  delete_word_back: input("deleteWordBackward", null, (e) => e.remove_at_caret("Left", "Char")),
  delete_word: input("deleteWordForward", null, (e) => e.remove_at_caret("Right", "Char")),
  type_emoji: input("insertText", "\u{1F468}\u200D\u{1F469}\u{1D54F}", (e) => e.insert_at_caret(["\u{1F468}\u200D\u{1F469}", "\u{1D54F}"])),
  type_nothing: input("insertText", "", (e) => e.insert_at_caret([])),
  undo_alone: key("z", "KeyZ", NOTHING, { shiftKey: true }),
  undo_held: key("z", "KeyZ", (e) => e.undo(), { ctrlKey: true, repeat: true }),
  left_held: key("ArrowLeft", "ArrowLeft", (e) => e.move_caret("Left", "Char"), { repeat: true }),
  set_away: {
    page: (c) => { const p = c.parentNode, next = c.nextSibling; c.remove(); c.setAttribute("mathml", "<math><mi>w</mi></math>"); c.setAttribute("mathml", "<math><mi>v</mi><mi>v</mi></math>"); p.insertBefore(c, next); },
    edit: (e, _p, _s, len) => { e.splice_at_range({ row_indices: [], start: 0, end: len }, sym("w")); e.splice_at_range({ row_indices: [], start: 0, end: 1 }, sym("v", "v")); },
  },
  other_key: key("a", "KeyA", NOTHING, { ctrlKey: true }),
  mouse_once: pointer("mousedown", 0.45, 0.4, NOTHING),
  mouse_twice: pointer("mousedown", 0.45, 0.4, (e, p, s) => { if (s.pressed) e.start_selection(p, "Word"); }, { detail: 2 }),
  mouse_thrice: pointer("mousedown", 0.7, 0.5, (e, p, s) => { if (s.pressed) e.start_selection(p, "Line"); }, { detail: 3 }),
  drag_second: pointer("pointermove", 0.8, 0.7, NOTHING, { isPrimary: false }),
  release_second: pointer("pointerup", 0.8, 0.7, NOTHING, { isPrimary: false }),
  cancel_second: pointer("pointercancel", 0.8, 0.7, NOTHING, { isPrimary: false }),
  focus: { on: "formula", focuses: true, make: () => new Ev("focus"), edit: NOTHING },
  paste_none: { on: "input", make: () => new Ev("paste", { clipboardData: null }), edit: NOTHING },
  copy_none: { on: "input", make: () => new Ev("copy", { clipboardData: null }), edit: NOTHING },
  paste_both: paste({ "application/json": json(sym("j")), "text/plain": json(sym("t")) }, (e) => e.paste(json(sym("j")), "JsonInputTree")),
  scroll: { page: () => scrollTo(scrolled.x + 13, scrolled.y + 170), edit: NOTHING },
  scroll_back: { page: () => scrollTo(scrolled.x - 41, scrolled.y - 90), edit: NOTHING },
  set_empty: { set: "<math></math>", edit: (e, _p, _s, len) => e.splice_at_range({ row_indices: [], start: 0, end: len }, []) },
  set_wrong: { set: "<math><mi>a</mi><mfrac><mi>x</mi></mfrac></math>", edit: (e, _p, _s, len) => e.splice_at_range({ row_indices: [], start: 0, end: len }, sym("a", "Error")) },
  set_other: { set: "<p>no formula</p>", edit: NOTHING, refused: true },
  set_text: { set: "x", edit: NOTHING, refused: true },
  set_same: { set: "<math><mi>a</mi><mo>+</mo></math>", edit: (e, _p, _s, len) => e.splice_at_range({ row_indices: [], start: 0, end: len }, sym("a", "+")) },
};
const COMMON = Object.keys(EVENTS);
Object.assign(EVENTS, RARE);
for (const [name, e] of Object.entries(EVENTS)) e.name = name;

const TABLE = "<math><mtable><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr><mtr><mtd><mi>c</mi></mtd><mtd><mi>d</mi></mtd></mtr></mtable><mo>+</mo></math>";
export const STARTS = {
  empty: [null, []],
  "ab": ["<math><mi>a</mi><mo>+</mo></math>", sym("a", "+")],
  fraction: ["<math><mi>a</mi><mfrac><mi>x</mi><mrow></mrow></mfrac></math>", [...sym("a"), fraction(sym("x"), [])]],
  table: [TABLE, [{ Container: ["Table", { values: ["a", "b", "c", "d"].map((v) => ({ values: sym(v) })), width: 2 }] }, ...sym("+")]],
  script: ["<math><msup><mi>a</mi><mi>b</mi></msup></math>", [...sym("a"), { Container: ["Sup", { values: [{ values: sym("b") }], width: 1 }] }]],
};

// ---------------------------------------------------------------- the two sides
export const markup = (n) => (n instanceof FComment ? "" : n instanceof FText ? n.data : `<${n.localName}>${n.childNodes.map(markup).join("")}</${n.localName}>`);
export const inShadow = (el, f) => [...walk(el)].filter((n) => n instanceof FElement && f(n));
const px = (v) => parseFloat(v);
const EPS = 1e-6;

/** What is needed to hold components against editors. */
export function bench(ctx, app) {
  interceptTimers();
  if (![...registry.values()].includes(app.component.MathEditor)) registry.set("math-editor", app.component.MathEditor);
  const { core, RowIndices } = { core: app.core, RowIndices: app.rows.RowIndices };
  const names = core.ModulesCreator.get_syntax_node_name_map();
  const renderer = new app.renderer.MathMLRenderer(new Map(Array.from(names.values, ([k, v]) => [app.renderer.joinPathIdentifier(k), v])));
  ctx.assume("the browser is a stand-in (ts/dom.mjs): events are delivered one at a time, deferred callbacks run in order at any later point between events");
  ctx.assume("moving by words and lines, IME composition and selections of table cells that are typed over or copied are not part of the explored alphabet (the core has no implementation)");

  /** What a formula looks like: the rendered elements in a formula of our own. */
  function picture(tree) {
    const math = document.createElementNS("http://www.w3.org/1998/Math/MathML", "math");
    ctx.body.append(math);
    const result = renderer.renderAll({ errors: null, value: tree });
    math.replaceChildren(...result.getElement(RowIndices.default()).getElements());
    return { math, result };
  }
  function shownMath(component) {
    const found = inShadow(component, (n) => n.localName === "math");
    if (found.length !== 1) ctx.fail("display", `the component shows ${found.length} formulas`);
    return found[0];
  }
  /** The display is that of the editor's own state. */
  function checkDisplay(component, when) {
    const editor = editorOf(component);
    const math = shownMath(component);
    const want = picture(editor.get_syntax_tree());
    try {
      const a = math.childNodes.map(markup).join(""), b = want.math.childNodes.map(markup).join("");
      if (a !== b) ctx.fail("display", `${when} the formula is ${b}, shown is ${a}`);
      const from = rectOf(want.math), to = rectOf(math);
      const dx = to.left - from.left, dy = to.top - from.top;
      const carets = editor.get_caret();
      const drawn = inShadow(component, (n) => n.classList.contains("caret"));
      const areas = inShadow(component, (n) => n.classList.contains("caret-selection"));
      if (drawn.length !== carets.length) ctx.fail("caret", `${when} there are ${carets.length} carets, shown are ${drawn.length}`);
      const base = (n) => rectOf(n.parentNode.classList.contains("caret-selection") ? n.parentNode.parentNode : n.parentNode);
      const area = (n) => ({ left: base(n).left + px(n.style.left), top: base(n).top + px(n.style.top), width: px(n.style.width), height: px(n.style.height) });
      let next = 0;
      carets.forEach((c, i) => {
        const at = drawn[i];
        if (c.Row) {
          const el = want.result.getElement(new RowIndices(c.Row.row_indices));
          const end = el.getCaretPosition(c.Row.end), start = el.getCaretPosition(c.Row.start), base0 = el.getCaretPosition(0).y;
          const size = want.result.getViewportCaretSize(new RowIndices(c.Row.row_indices));
          const x = base(at).left + px(at.style.left), y = base(at).top + px(at.style.top);
          if (!(Math.abs(x - (end.x + dx)) < EPS)) ctx.fail("caret", `${when} the caret ${JSON.stringify(c.Row)} is shown at x=${x}, its place is ${end.x + dx}`);
          if (!(Math.abs(y - (base0 + dy)) <= size * 0.5)) ctx.fail("caret", `${when} the caret ${JSON.stringify(c.Row)} is shown at y=${y}, its baseline is ${base0 + dy}`);
          if (at.style.display === "none" || !(px(at.style.height) > 0)) ctx.fail("caret", `${when} the caret is not visible`);
          if (c.Row.start !== c.Row.end) {
            const r = areas[next++];
            if (!r) ctx.fail("selection", `${when} the selection ${JSON.stringify(c.Row)} is not shown`);
            const q = area(r), left = Math.min(start.x, end.x) + dx, right = Math.max(start.x, end.x) + dx;
            if (!(Math.abs(q.left - left) < EPS && Math.abs(q.left + q.width - right) < EPS && q.height >= 0)) ctx.fail("selection", `${when} the selection ${JSON.stringify(c.Row)} is shown from ${q.left} to ${q.left + q.width}, expected are ${left} to ${right}`);
          }
        } else if (c.Grid) {
          const r = areas[next++];
          if (!r) ctx.fail("selection", `${when} the cell selection is not shown`);
          const q = area(r);
          for (const k of [c.Grid.range.start, c.Grid.range.end - 1]) {
            const b = want.result.getViewportRowBounds(new RowIndices([...c.Grid.row_indices, [c.Grid.index, k]]));
            if (!(q.left <= b.x + dx + EPS && q.top <= b.y + dy + EPS && q.left + q.width >= b.x + dx + b.width - EPS && q.top + q.height >= b.y + dy + b.height - EPS))
              ctx.fail("selection", `${when} the selection of cells does not cover cell ${k}`);
          }
          if (at.style.display !== "none" && px(at.style.height) > 0) ctx.fail("caret", `${when} a caret is shown in a selection of cells`);
        } else ctx.fail("caret", `unknown caret ${JSON.stringify(c)}`);
      });
      if (next !== areas.length) ctx.fail("selection", `${when} ${areas.length} selections are shown, there are ${next}`);
    } finally { want.math.remove(); }
  }
  const state = (e) => JSON.stringify([e.get_input_tree(), e.get_caret()]);

  class Cut extends Error { }
  const unimplemented = (e) => e instanceof Panic && /not yet implemented|not implemented/.test(e.message);
  /** The reference: every edit directly on an editor, in order. */
  function reference(start) {
    const e = new core.MathEditorBindings(core.DefaultParser), s = { pressed: false };
    if (start) e.splice_at_range({ row_indices: [], start: 0, end: e.get_input_tree().values.length }, start);
    return {
      e,
      apply(ev, place) {
        try {
          let p = null;
          if (place) {
            const pic = picture(e.get_syntax_tree());
            try {
              const m = rectOf(pic.math);
              const r = pic.result.getLayoutPosition({ x: m.left + place.x, y: m.top + place.y });
              p = { row_indices: r.indices.indices.slice(), offset: r.offset };
            } finally { pic.math.remove(); }
          }
          const copied = ev.copies ? e.copy("JsonInputTree") : null;
          ev.edit(e, p, s, e.get_input_tree().values.length);
          return copied;
        } catch (x) {
          if (unimplemented(x)) throw new Cut();
          throw x;
        }
      },
    };
  }
  /** What the component's callbacks raised. */
  function raiseReported() { const list = reported.splice(0); if (list.length) throw list[0]; }
  function startComponent(value, early) {
    const c = new app.component.MathEditor();
    const set = () => { if (value !== null) c.setAttribute("mathml", value); };
    if (early === "twice" && value !== null) c.setAttribute("mathml", "<math><mi>w</mi><mi>w</mi></math>");
    if (early) set();
    ctx.body.append(c);
    if (!early) set();
    raiseReported();
    return c;
  }
  const targets = (component) => {
    const area = inShadow(component, (n) => n.localName === "textarea")[0];
    const box = inShadow(component, (n) => n.listeners.has("pointerdown"))[0];
    return { area, box };
  };
  return { picture, shownMath, checkDisplay, state, Cut, reference, startComponent, targets, raiseReported };
}
function* exactly(names, n) {
  if (n === 0) { yield []; return; }
  for (const a of names) for (const r of exactly(names, n - 1)) yield [a, ...r];
}
export function c36(ctx, app) {
  const { shownMath, checkDisplay, state, Cut, reference, startComponent, targets, raiseReported } = bench(ctx, app);
  function judge({ start, early, word }) {
    timers = [];
    reported.length = 0;
    scrollTo(0, 0);
    let component = null, ref = null;
    try {
      component = startComponent(STARTS[start][0], early);
      ref = reference(null);
      const replace = (v) => ref.e.splice_at_range({ row_indices: [], start: 0, end: ref.e.get_input_tree().values.length }, v);
      if (early === "twice" && STARTS[start][0] !== null) replace(sym("w", "w"));
      if (STARTS[start][0] !== null) replace(STARTS[start][1]);
      if (JSON.stringify(editorOf(component).get_input_tree()) !== JSON.stringify(ref.e.get_input_tree())) ctx.fail("start", `the component starts with ${state(editorOf(component))}, expected is ${state(ref.e)}`);
      if (word.length === 0) checkDisplay(component, "at the start");
      const { area, box } = targets(component);
      word.forEach((step, at) => {
        if (step === "tick") tick();
        else {
          const ev = EVENTS[step];
          const math = rectOf(shownMath(component));
          const off = ev.at ? { x: ev.at[0] * math.width, y: ev.at[1] * math.height } : null;
          // removing an attribute that is not there is no event
          const idle = ev.set === null && !component.hasAttribute("mathml");
          const copied = idle ? null : ref.apply(ev, off);
          let raised = null;
          try {
            if (ev.page) {
              ev.page(component);
              raiseReported();
            } else if ("set" in ev) {
              if (ev.set === null) component.removeAttribute("mathml"); else component.setAttribute("mathml", ev.set);
              raiseReported();
            } else {
              const native = ev.make(off && { x: math.left + off.x, y: math.top + off.y });
              (ev.on === "input" ? area : box).dispatchEvent(native);
              if (ev.copies) {
                if (native.clipboardData.getData("application/json") !== copied) ctx.fail("clipboard", `${ev.name} puts ${native.clipboardData.getData("application/json")} on the clipboard, selected is ${copied}`);
                if (!native.defaultPrevented) ctx.fail("clipboard", "the browser copies something else");
              }
              if ((ev.focuses || (ev.name.startsWith("press_") && native.isPrimary)) && document.activeElement !== area) ctx.fail("focus", "pressing the pointer does not focus the editor");
            }
          } catch (x) { raised = x; }
          // a message about pasted text or an attribute that is no formula is fine
          if (raised !== null && !((step === "paste_bad" || EVENTS[step].refused) && (typeof raised === "string" || raised?.constructor === Error))) throw raised;
        }
        if (at === word.length - 1) {
          checkDisplay(component, "at once");
          const pending = timers.length;
          while (timers.length) tick();
          if (pending) checkDisplay(component, "after the deferred work");
          const a = state(editorOf(component)), b = state(ref.e);
          if (a !== b) ctx.fail("order", `the events in their order give ${b}, the component has ${a}`);
          ctx.states(1);
        }
        ctx.transitions(1);
      });
    } catch (x) {
      if (x instanceof Cut) { ctx.count("ended where the core has no implementation"); return; }
      throw x;
    } finally {
      timers = [];
      if (component) { editorOf(component)?.free?.(); component.remove(); }
      ref?.e.free();
      ctx.body.replaceChildren();
      document.activeElement = null;
    }
  }
  /** Every word of up to n events, with the deferred work running at every possible point. */
  function* words(names, n, deep = 0) {
    function* go(word, left, pending) {
      yield word;
      if (pending > 0) yield* go([...word, "tick"], left, pending - 1);
      if (left === 0) return;
      for (const name of names) yield* go([...word, name], left - 1, pending + (EVENTS[name].deferred ? 1 : 0));
    }
    yield* go([], n, 0);
  }
  const all = COMMON;
  const show = (c) => `${c.start}${c.early ? ` (attribute ${c.early === true ? "" : c.early + " "}before connecting)` : ""}: ${c.word.join(" ")}`;
  const phase = (title, starts, names, n, early = [false]) => ctx.run(title, function* () {
    for (const start of starts) for (const e of early) for (const word of words(names, n)) yield { start, early: e, word };
  }, show, judge, null, 32);
  const starts = Object.keys(STARTS);
  phase("start", starts, all, 0, [false, true, "twice"]);
  phase("every 1 event", starts, all, 1, [false, true, "twice"]);
  phase("every 2 events", starts, all, 2);
  phase("every 3 events", ctx.pick(["fraction"], starts), all, 3);
  const core1 = ["left", "up", "undo", "redo", "type_x", "backspace", "press_middle", "drag", "release", "cut", "paste"];
  phase("every 4 events of 11", ctx.pick(["ab"], ["ab", "fraction", "empty"]), core1, ctx.pick(4, 5));
  phase("every 4 events around a completed word", ["empty", "fraction"], ["type_sum", "type_x", "press_end", "press_start", "drag", "drag_back", "release", "left", "undo"], ctx.pick(4, 5));
  const few = ["left", "undo", "type_x", "backspace", "press_start", "release"];
  phase("every 5 events of 6", ["ab"], few, ctx.pick(5, 6));
  const rare = Object.keys(RARE);
  phase("rare events around common ones", ctx.pick(["fraction"], starts), [...rare, "left", "type_x", "type_sum", "undo", "press_end", "press_middle", "drag", "release", "paste"], ctx.pick(2, 3));
  phase("every 3 events around double clicks", ["ab", "empty"], ["press_middle", "mouse_once", "mouse_twice", "mouse_thrice", "drag", "drag_back", "release", "cancel", "drag_second", "release_second", "cancel_second", "type_sum", "left"], ctx.pick(3, 4));
  phase("every 4 events around scrolling", ctx.pick(["fraction"], ["fraction", "ab", "table"]), ["scroll", "scroll_back", "press_middle", "drag", "release", "type_x"], 4);
  // long histories: a pattern of events over and over, the deferred work running after each event, or only at the end
  const repeat = (pattern, times, late) => {
    const word = [];
    for (let i = 0; i < times; i++) {
      const name = pattern[i % pattern.length];
      word.push(name);
      if (!late && EVENTS[name].deferred) word.push("tick");
    }
    return word;
  };
  const over = (title, starts, names, n) => ctx.run(title, function* () {
    for (const start of starts) for (const late of [false, true]) for (const pattern of exactly(names, n)) yield { start, early: false, word: repeat(pattern, ctx.pick(36, 120), late) };
  }, show, judge, null, 32);
  over("one event over and over", starts, all, 1);
  over("two events over and over", ctx.pick(["fraction"], ["fraction", "empty", "ab"]), all, 2);
  over("three events over and over", ctx.pick(["empty"], ["fraction", "empty"]), ["left", "right", "undo", "redo", "type_x", "type_sum", "backspace", "press_middle", "drag", "paste"], 3);
}
