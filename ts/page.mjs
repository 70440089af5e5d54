// C41: pages with formulas and editors, and several editors side by side.
import fs from "node:fs";
import { FComment, FElement, FMathMLElement, FText, parseMarkup, rectOf, registry, reported, scrollTo, walk } from "./dom.mjs";
import { EVENTS, Clipboard, Ev, STARTS, bench, editorOf, noTimers, pointer, tick, timers } from "./component.mjs";
import { markup, reference as imported } from "./import.mjs";

// ---------------------------------------------------------------- pages
const escape = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const escapeValue = (s) => escape(s).replace(/"/g, "&quot;");
/** Formulas as nested arrays, see import.mjs. */
const FORMULAS = [
  ["math"],
  ["math", ["mi", "a"], ["mo", "<"], ["mi", "b"]],
  ["math", ["mfrac", ["mn", "12"], ["mrow"]], ["mo", "&"], ["mtext", 'say "x"']],
  ["math", ["mtable", ["mtr", ["mtd", ["mi", "p"]], ["mtd"]], ["mtr", ["mtd", ["msqrt", ["mi", "q"]]]]]],
  ["math", ["msubsup", ["mo", "\u2211"], ["mi", "e\u0301"], ["mi", "\u{1F44D}"]], ["foo"], ["mfrac", ["mi", "z"]]],
];
const text = (c) => (typeof c === "string" ? escape(c) : `<${c[0]}>${c.slice(1).map(text).join("")}</${c[0]}>`);
const spaced = (c) => (typeof c === "string" ? escape(c) : `<${c[0]}>${c.slice(1).map((k) => (typeof k === "string" ? `<!--|-->${escape(k)}<!-- <mi>no</mi> -->` : `\n  ${spaced(k)}<!--1-->`)).join("")}\n</${c[0]}>`);
const withAttributes = (m, a) => m.replace("<math", "<math " + a);
const ITEMS = {
  text: "Some <text> & more".replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;"),
  paragraph: '<p class="math" id="k">A <b>bold</b> paragraph</p>',
  comment: "<!-- math data-editor -->",
  plain: text(FORMULAS[1]),
  plain_marked_inside: '<p data-editor="true">x</p>',
  nested_plain: `<span>${text(FORMULAS[2])}</span>`,
  f0: withAttributes(text(FORMULAS[0]), 'data-editor="true"'),
  f1: withAttributes(text(FORMULAS[1]), 'data-editor="true"'),
  f2: withAttributes(spaced(FORMULAS[2]), 'display="block" style="font-family: STIX Two" tabindex="0" data-editor="true"'),
  f3: withAttributes(text(FORMULAS[3]), 'data-editor=""'),
  f4: withAttributes(spaced(FORMULAS[4]), 'data-editor'),
  editor: `<math-editor mathml="${escapeValue(text(FORMULAS[2]))}"></math-editor>`,
  editor_spaced: `<math-editor mathml="${escapeValue("\n " + spaced(FORMULAS[4]))}"></math-editor>`,
  editor_bare: "<math-editor></math-editor>",
};
/** What a node of the page should have become. */
function toArray(n) {
  return n instanceof FText ? n.data : [n.localName, ...n.childNodes.filter((k) => !(k instanceof FComment)).map(toArray)];
}

export async function c41(ctx, app) {
  const { shownMath, checkDisplay, state, Cut, reference, targets, raiseReported } = bench(ctx, app);
  ctx.assume("the browser is a stand-in (ts/dom.mjs): events are delivered one at a time, deferred callbacks run in order at any later point between events; several editors stand in one row of the page or in nested elements");
  const body = ctx.body;
  const registered = [...registry].filter(([, c]) => c !== app.component.MathEditor || app.defined);
  const fresh = () => {
    noTimers();
    for (const n of [...body.childNodes]) n.remove();
    reported.length = 0;
    scrollTo(0, 0);
    document.activeElement = null;
    registry.clear();
  };
  const tag = () => [...registry].find(([, c]) => c === app.component.MathEditor)?.[0];

  // ------------------------------------------------------------ the page becomes editors
  let evaluation = 0;
  async function judgePage({ html }) {
    fresh();
    for (const [k, c] of registered) registry.set(k, c);
    try {
      body.append(...parseMarkup(html));
      // what there is, and what should become of it
      const before = [...walk(body)].map((n) => ({
        n, parent: n.parentNode, at: n.parentNode?.childNodes.indexOf(n), inMath: n.parentNode instanceof FMathMLElement,
        marked: n instanceof FMathMLElement && n.localName === "math" && n.hasAttribute("data-editor"),
        editor: n.localName === "math-editor",
        attrs: n instanceof FElement ? JSON.stringify([...n.attrs]) : n.data,
        formula: n instanceof FMathMLElement ? toArray(n) : null,
        children: n.childNodes.length,
      }));
      await import(`${ctx.tmp}/main.mjs?${evaluation++}`);
      while (timers.length) tick();
      if (tag() !== "math-editor") ctx.fail("page", "there is no element math-editor");
      const malformed = before.filter((b) => b.editor && b.n.getAttribute("mathml")?.startsWith("<p")).length;
      if (!malformed) raiseReported();
      else if (reported.splice(0).length < malformed) ctx.fail("page", "malformed editors are not reported");
      const editors = [];
      const gone = new Set();
      for (const b of before) {
        if (gone.has(b.parent)) { gone.add(b.n); continue; }
        if (b.marked) {
          gone.add(b.n);
          const e = b.parent.childNodes[b.at];
          if (!(e instanceof app.component.MathEditor)) ctx.fail("page", `${markup(b.formula)} has not become an editor, there is ${e?.outerHTML ?? e}`);
          if (b.n.isConnected) ctx.fail("page", `${markup(b.formula)} is still shown`);
          editors.push([e, b.formula]);
        } else if (b.n.parentNode !== b.parent || (b.parent && b.parent.childNodes[b.at] !== b.n)) ctx.fail("page", `${b.n.outerHTML ?? b.attrs} of the page is not in its place anymore`);
        else if (b.editor) {
          const value = parseMarkup(b.n.getAttribute("mathml") ?? "").find((n) => n instanceof FElement);
          editors.push([b.n, value instanceof FMathMLElement ? toArray(value) : ["math"]]);
          if (!(b.n instanceof app.component.MathEditor)) ctx.fail("page", "an editor of the page does not work");
        } else {
          if (JSON.stringify([...(b.n.attrs ?? [])]) !== (b.n instanceof FElement ? b.attrs : "[]") || (!(b.n instanceof FElement) && b.n.data !== b.attrs)) ctx.fail("page", `${b.attrs} of the page has changed`);
          if (b.n.childNodes.length !== b.children) ctx.fail("page", "the page has more or fewer parts than before");
        }
      }
      const check = () => editors.map(([e, formula], i) => {
        const errors = { n: 0, style: false };
        const want = JSON.stringify(imported(formula, errors)), got = JSON.stringify(editorOf(e).get_input_tree().values);
        if (!errors.style && got !== want) ctx.fail("content", `editor ${i + 1} of ${editors.length} must hold ${want}, it holds ${got}`);
        checkDisplay(e, `in editor ${i + 1} of ${editors.length}`);
        ctx.transitions(1);
        return got;
      });
      const all = check();
      // each of them works, for itself
      for (let k = 0; k < editors.length; k++) {
        const e = editors[k][0];
        targets(e).area.dispatchEvent(EVENTS.type_x.make());
        while (timers.length) tick();
        editors.forEach(([o], i) => {
          const want = i === k ? null : all[i], got = JSON.stringify(editorOf(o).get_input_tree().values);
          if (want !== null ? got !== want : JSON.parse(got).length !== JSON.parse(all[k]).length + 1) ctx.fail("typing", `after typing into editor ${k + 1} of ${editors.length}, editor ${i + 1} holds ${got}, before it was ${all[i]}`);
        });
        targets(e).area.dispatchEvent(EVENTS.undo.make());
        while (timers.length) tick();
        checkDisplay(e, "after undo");
      }
      if (editors.length) check();
      for (const [e] of editors) editorOf(e).free?.();
      ctx.states(1);
      ctx.count("editors on pages", editors.length);
    } finally { fresh(); }
  }
  const page = (title, cases) => ctx.run(title, cases, (c) => c.name, judgePage, null, 8, true);
  const names = Object.keys(ITEMS);
  function* seqs(items, max) { yield []; if (max > 0) for (const i of items) for (const r of seqs(items, max - 1)) yield [i, ...r]; }
  await page("the demo page", function* () {
    const m = /<body[^>]*>([^]*)<\/body>/.exec(fs.readFileSync("/repo/index.html", "utf8"));
    yield { name: "index.html", html: m[1].replace(/<script[^]*?<\/script>/g, "") };
  });
  await page(`every page of up to ${ctx.pick(3, 4)} of ${names.length} parts`, function* () {
    for (const s of seqs(names, ctx.pick(3, 4))) yield { name: s.join(" "), html: s.map((k) => ITEMS[k]).join(" ") };
  });
  const few = ["text", "plain", "f1", "f2", "f3", "editor"];
  await page(`every page of up to ${ctx.pick(4, 5)} of ${few.length} parts`, function* () {
    for (const s of seqs(few, ctx.pick(4, 5))) yield { name: s.join(" "), html: s.map((k) => ITEMS[k]).join("") };
  });
  await page("every nested page", function* () {
    for (const s of seqs(["paragraph", "plain", "f1", "f3", "editor"], 3)) for (let cut = 0; cut <= s.length; cut++) for (let to = cut; to <= s.length; to++) {
      const part = (a, b) => s.slice(a, b).map((k) => ITEMS[k]).join("\n");
      yield { name: `${s.slice(0, cut).join(" ")} [${s.slice(cut, to).join(" ")}] ${s.slice(to).join(" ")}`, html: `${part(0, cut)}<div data-editor="x"><section>${part(cut, to)}</section></div>${part(to)}` };
    }
  });
  await page("malformed editors on the page", function* () {
    for (const bad of ["<p>x</p>", "<p data-editor><math></math></p>"]) for (const s of seqs(["f1", "text", "editor"], 2)) for (let at = 0; at <= s.length; at++) {
      const parts = s.map((k) => ITEMS[k]);
      parts.splice(at, 0, `<math-editor mathml="${escapeValue(bad)}"></math-editor>`);
      yield { name: `${s.join(" ")} with ${bad} at ${at}`, html: parts.join("") };
    }
  });

  // ------------------------------------------------------------ editors side by side
  const LOCAL = {
    ...EVENTS,
    drag_right: pointer("pointermove", 4.5, 0.5, (e, p, s) => { if (s.pressed) e.extend_selection(p); }),
    drag_left: pointer("pointermove", -3.5, 0.5, (e, p, s) => { if (s.pressed) e.extend_selection(p); }),
    paste_copied: { on: "input", pastes: true, deferred: false },
    enter: { on: "formula", focuses: true, make: () => new Ev("focus"), edit: () => { } },
    set_bad: { set: "<p>no formula</p>", refused: true, edit: () => { } },
    move_back: { page: (c) => c.parentNode.append(c), edit: () => { } },
    move_out: { page: (c) => body.prepend(c), edit: () => { } },
    remove: { page: (c) => c.remove(), edit: () => { }, removes: true },
  };
  for (const [name, e] of Object.entries(LOCAL)) e.name = name;
  const PLACES = {
    "in one row": (cs) => body.append(...cs),
    "in a text and nested": (cs) => {
      const div = document.createElement("div"), p = document.createElement("p");
      body.append("before ", div, "after ");
      div.append("x", p, ...cs.slice(1));
      p.append("y", cs[0]);
    },
  };
  function judgeRow({ starts, place, word }) {
    fresh();
    registry.set("math-editor", app.component.MathEditor);
    const cs = [], refs = [], removed = new Set();
    let clip = null, clipWant = null, shifts = 0;
    try {
      for (const s of starts) {
        const c = document.createElement("math-editor");
        if (STARTS[s][0] !== null) c.setAttribute("mathml", STARTS[s][0]);
        cs.push(c);
        refs.push(reference(STARTS[s][0] === null ? null : STARTS[s][1]));
      }
      PLACES[place](cs);
      raiseReported();
      const checkAll = (when) => cs.forEach((c, k) => { if (!removed.has(k)) checkDisplay(c, `${when}, in editor ${k + 1}`); });
      if (!word.length) checkAll("at the start");
      word.forEach((step, at) => {
        if (step === "tick") tick();
        else if (step === "note") body.prepend(document.createTextNode("a note " + shifts++));
        else {
          const k = +step[0] - 1, ev = LOCAL[step.slice(2)], c = cs[k], ref = refs[k];
          const { area, box } = targets(c);
          const math = rectOf(shownMath(c));
          const off = ev.at ? { x: ev.at[0] * math.width, y: ev.at[1] * math.height } : null;
          if (ev.pastes) {
            const data = clipWant;
            ref.apply({ edit: (e) => { if (data) e.paste(data, "JsonInputTree"); } }, null);
            try { area.dispatchEvent(new Ev("paste", { clipboardData: new Clipboard(clip ? { "application/json": clip } : {}) })); } catch (x) { if (clip !== null || typeof x !== "string") throw x; }
          } else {
            const idle = ev.set === null && !c.hasAttribute("mathml");
            const copied = idle ? null : ref.apply(ev, off);
            if ("set" in ev) {
              if (ev.set === null) c.removeAttribute("mathml"); else c.setAttribute("mathml", ev.set);
              if (ev.refused && reported.splice(0).length === 0) ctx.fail("malformed", "a malformed attribute is not reported");
              raiseReported();
            } else if (ev.page) {
              ev.page(c);
              if (ev.removes) removed.add(k);
              raiseReported();
            } else {
              const native = ev.make(off && { x: math.left + off.x, y: math.top + off.y });
              // a message about pasted text that is no formula is fine
              try { (ev.on === "input" ? area : box).dispatchEvent(native); } catch (x) { if (ev.name !== "paste_bad" || (typeof x !== "string" && x?.constructor !== Error)) throw x; }
              if (ev.copies) {
                clip = native.clipboardData.getData("application/json");
                clipWant = copied;
                if (clip !== copied) ctx.fail("clipboard", `${step} puts ${clip} on the clipboard, selected is ${copied}`);
              }
              if ((ev.name.startsWith("press_") && native.isPrimary) || ev.focuses) if (document.activeElement !== area) ctx.fail("focus", `${step} does not focus the editor`);
            }
          }
        }
        if (at === word.length - 1) {
          checkAll("at once");
          const pending = timers.length;
          while (timers.length) tick();
          if (pending) checkAll("after the deferred work");
          cs.forEach((c, k) => {
            if (removed.has(k)) return;
            const a = state(editorOf(c)), b = state(refs[k].e);
            if (a !== b) ctx.fail("apart", `editor ${k + 1} has ${a}, alone it would be ${b}`);
          });
          // the history is its own, too
          cs.forEach((c, k) => {
            if (removed.has(k)) return;
            targets(c).area.dispatchEvent(EVENTS.undo.make());
            refs[k].e.undo();
            const a = state(editorOf(c)), b = state(refs[k].e);
            if (a !== b) ctx.fail("apart", `after undo editor ${k + 1} has ${a}, alone it would be ${b}`);
          });
          ctx.states(1);
        }
        ctx.transitions(1);
      });
    } catch (x) {
      if (x instanceof Cut) { ctx.count("ended where the core has no implementation"); return; }
      throw x;
    } finally {
      for (const c of cs) editorOf(c)?.free?.();
      for (const r of refs) r.e.free();
      fresh();
    }
  }
  /** Every word of up to n events of two editors, the deferred work at every possible point. */
  function* words(events, n, others = []) {
    const all = [...events.map((e) => "1 " + e), ...events.map((e) => "2 " + e), ...others];
    function* go(word, left, pending, off) {
      yield word;
      if (pending > 0) yield* go([...word, "tick"], left, pending - 1, off);
      if (left === 0) return;
      for (const name of all) {
        if (off.includes(name[0])) continue;
        const e = LOCAL[name.slice(2)];
        yield* go([...word, name], left - 1, pending + (e?.deferred ? 1 : 0), e?.removes ? off + name[0] : off);
      }
    }
    yield* go([], n, 0, "");
  }
  const show = (c) => `${c.starts.join(" | ")} ${c.place}: ${c.word.join(", ")}`;
  const row = (title, pairs, places, events, n, others) => ctx.run(title, function* () {
    for (const starts of pairs) for (const place of places) for (const word of words(events, n, others)) yield { starts, place, word };
  }, show, judgeRow, null, 32);
  const places = Object.keys(PLACES), starts = Object.keys(STARTS);
  const pairs = starts.flatMap((a) => starts.map((b) => [a, b]));
  const every = Object.keys(LOCAL);
  row("every 1 event of two editors", pairs, places, every, 1, ["note"]);
  row("every 2 events of two editors", ctx.pick([["ab", "fraction"]], pairs), ctx.pick(places.slice(1), places), every, 2, ["note"]);
  const main = ["left", "type_x", "undo", "backspace", "press_middle", "drag", "release", "cut", "paste_copied", "set"];
  row("every 3 events of 10 of two editors", ctx.pick([["ab", "fraction"]], [["ab", "fraction"], ["empty", "empty"], ["table", "script"], ["ab", "ab"]]), ctx.pick(places.slice(0, 1), places), main, 3, ["note"]);
  row("every 4 events of 4 of two editors", ctx.pick([["ab", "ab"]], [["ab", "ab"], ["fraction", "empty"]]), places.slice(0, 1), ["type_x", "left", "undo", "press_start"], ctx.pick(4, 5));
  row("every 4 events of copying between two editors", [["ab", "fraction"]], places.slice(0, 1), ["press_start", "drag_right", "copy", "cut", "paste_copied"], ctx.pick(4, 5));
  row("every 4 events of moving, removing and refusing", ctx.pick([["ab", "script"]], [["ab", "script"], ["empty", "table"]]), places.slice(1), ["type_x", "move_back", "move_out", "remove", "set_bad", "press_end", "drag_left"], ctx.pick(3, 5), ["note"]);
  row(`every ${ctx.pick(3, 4)} events around scrolling`, ctx.pick([["ab", "fraction"]], [["ab", "fraction"], ["script", "table"]]), places.slice(1), ["scroll", "press_middle", "drag", "type_x"], ctx.pick(3, 4), ["note"]);
}
