// Stands in for aftermath-core/pkg (the WebAssembly package): forwards every call to the real bindings, which run in
// the host process `front SERVE`.
const call = (op, h, args = []) => globalThis.__call(op, h, args);
class Handle {
  constructor(h) { this.h = h; }
  free() { }
}
class ParseModulesBindings extends Handle {
  constructor(h) { super(h ?? call("ParseModulesBindings")); }
  get_built_in() { return new BoxedParseModule(call("get_built_in", this.h)); }
  get_syntax_node_name_map() {
    const list = call("get_syntax_node_name_map", this.h);
    return { values: new Map(list), reverse_values: new Map(list.map(([k, v]) => [v, k])) };
  }
}
class BoxedParseModule extends Handle { }
class ParseModuleCollectionBindings extends Handle {
  constructor(m) { super(call("ParseModuleCollectionBindings", 0, [m.h])); }
  add_module(m) { call("add_module", this.h, [m.h]); }
}
class MathParserBindings extends Handle {
  constructor(c) { super(call("MathParserBindings", 0, [c.h])); }
}
const ParseModulesCreator = {};
for (const n of ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string"])
  ParseModulesCreator["make_" + n] = (m) => new BoxedParseModule(call("make", m.h, [n]));
class MathEditorBindings extends Handle {
  constructor(p) { super(call("MathEditorBindings", 0, [p.h])); globalThis.__made?.(this); }
  free() { call("free", this.h); }
}
for (const n of ["focus", "unfocus", "move_caret", "select_with_caret", "remove_at_caret", "insert_at_caret", "select_all", "undo", "redo",
  "start_selection", "extend_selection", "finish_selection", "copy", "paste", "open_autocomplete", "finish_autocomplete",
  "move_in_autocomplete", "get_autocomplete", "get_caret", "get_input_tree", "get_syntax_tree", "splice_at_range"])
  MathEditorBindings.prototype[n] = function (...args) {
    globalThis.__trace?.(n, args);
    const v = call(n, this.h, args);
    return v === null ? undefined : v;
  };
// usable as the default export under both ways of importing a CommonJS module
const init = async () => { };
module.exports = Object.assign(init, {
  __esModule: true, default: init,
  ParseModulesBindings, BoxedParseModule, ParseModuleCollectionBindings, MathParserBindings, ParseModulesCreator, MathEditorBindings,
});
