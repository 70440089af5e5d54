//! The repository's web bindings on the host.
//! `front SERVE`: answers requests of the TypeScript checks (one JSON object per line) with the real bindings.
//! `front C37 ...`: checks the bindings themselves against the editor they wrap.
mod bindings;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use vcommon::*;
use wasm_bindgen::JsValue;
use web::math_editor::MathEditorBindings;
use web::math_parser::*;

fn arg<T: for<'a> Deserialize<'a>>(v: &Value, i: usize) -> T {
    serde_json::from_value(v["args"].get(i).cloned().unwrap_or(Value::Null)).expect("argument of the wrong type")
}

#[derive(Default)]
pub struct Host {
    next: u64,
    modules: HashMap<u64, ParseModulesBindings>,
    module: HashMap<u64, parser::parse_module::BoxedParseModule>,
    collections: HashMap<u64, ParseModuleCollectionBindings>,
    parsers: HashMap<u64, MathParserBindings>,
    editors: HashMap<u64, MathEditorBindings>,
}
fn js(r: Result<JsValue, JsValue>) -> Result<Value, Value> {
    r.map(|v| v.0).map_err(|e| e.0)
}
pub fn name_list(m: &ParseModulesBindings) -> Vec<(Vec<String>, u32)> {
    let names = m.get_syntax_node_name_map();
    let mut out = vec![];
    for i in 0.. {
        let Some(p) = names.get_reverse(parser::syntax_tree::SyntaxNodeNameId::new(i)) else { break };
        out.push((serde_json::from_value(serde_json::to_value(p).unwrap()).unwrap(), i));
    }
    out
}
impl Host {
    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    pub fn new_editor(&self, parser: u64) -> MathEditorBindings {
        MathEditorBindings::new(&self.parsers[&parser])
    }
    /// Err: thrown as an exception
    pub fn call(&mut self, q: &Value) -> Result<Value, Value> {
        let h = q["h"].as_u64().unwrap_or(0);
        let op = q["op"].as_str().unwrap_or("");
        match op {
            "ParseModulesBindings" => {
                let i = self.id();
                self.modules.insert(i, ParseModulesBindings::new());
                return Ok(json!(i));
            }
            "get_built_in" => {
                let m = self.modules[&h].get_built_in();
                let i = self.id();
                self.module.insert(i, m);
                return Ok(json!(i));
            }
            "get_syntax_node_name_map" => return Ok(json!(name_list(&self.modules[&h]))),
            "make" => {
                let m = self.modules.get_mut(&h).unwrap();
                let b = match arg::<String>(q, 0).as_str() {
                    "core" => ParseModulesCreator::make_core(m),
                    "arithmetic" => ParseModulesCreator::make_arithmetic(m),
                    "calculus" => ParseModulesCreator::make_calculus(m),
                    "collections" => ParseModulesCreator::make_collections(m),
                    "comparison" => ParseModulesCreator::make_comparison(m),
                    "function" => ParseModulesCreator::make_function(m),
                    "logic" => ParseModulesCreator::make_logic(m),
                    "string" => ParseModulesCreator::make_string(m),
                    x => return Err(json!(format!("unknown module {x}"))),
                };
                let i = self.id();
                self.module.insert(i, b);
                return Ok(json!(i));
            }
            "ParseModuleCollectionBindings" => {
                let i = self.id();
                let c = ParseModuleCollectionBindings::new(&self.modules[&arg::<u64>(q, 0)]);
                self.collections.insert(i, c);
                return Ok(json!(i));
            }
            "add_module" => {
                let m = self.module.remove(&arg::<u64>(q, 0)).ok_or(json!("null pointer passed to rust"))?;
                self.collections.get_mut(&h).unwrap().add_module(m);
                return Ok(Value::Null);
            }
            "MathParserBindings" => {
                let c = self.collections.remove(&arg::<u64>(q, 0)).ok_or(json!("null pointer passed to rust"))?;
                let i = self.id();
                self.parsers.insert(i, MathParserBindings::new(c));
                return Ok(json!(i));
            }
            "parse" => {
                // several formulas at once; not part of the bindings
                let rows: Vec<Vec<input_tree::node::InputNode>> = arg(q, 0);
                let p = self.parsers[&h].get_parser();
                let trees: Vec<Value> = rows
                    .iter()
                    .map(|r| match guard(|| serde_json::to_value(p.parse(r)).unwrap()) {
                        Ok(t) => t,
                        Err(e) => json!({"panic": e.to_string()}),
                    })
                    .collect();
                return Ok(json!(trees));
            }
            "MathEditorBindings" => {
                let i = self.id();
                let e = MathEditorBindings::new(&self.parsers[&arg::<u64>(q, 0)]);
                self.editors.insert(i, e);
                return Ok(json!(i));
            }
            "free" => {
                self.editors.remove(&h);
                return Ok(Value::Null);
            }
            _ => {}
        }
        editor_call(self.editors.get_mut(&h).ok_or(json!("null pointer passed to rust"))?, op, q)
    }
}
pub fn editor_call(e: &mut MathEditorBindings, op: &str, q: &Value) -> Result<Value, Value> {
    let undefined_mode = || -> Option<_> { q["args"].get(1).filter(|v| !v.is_null()).map(|_| arg(q, 1)) };
    Ok(match op {
        "focus" => json!(e.focus()),
        "unfocus" => json!(e.unfocus()),
        "move_caret" => json!(e.move_caret(arg(q, 0), arg(q, 1))),
        "select_with_caret" => json!(e.select_with_caret(arg(q, 0), arg(q, 1))),
        "remove_at_caret" => json!(e.remove_at_caret(arg(q, 0), arg(q, 1))),
        "insert_at_caret" => json!(e.insert_at_caret(JsValue(arg(q, 0))).map_err(|e| e.0)?),
        "select_all" => json!(e.select_all()),
        "undo" => json!(e.undo()),
        "redo" => json!(e.redo()),
        "start_selection" => json!(e.start_selection(arg(q, 0), arg(q, 1))),
        "extend_selection" => json!(e.extend_selection(arg(q, 0))),
        "finish_selection" => json!(e.finish_selection()),
        "copy" => json!(e.copy(arg(q, 0)).map_err(|e| json!(e))?),
        "paste" => json!(e.paste(arg(q, 0), undefined_mode()).map_err(|e| json!(e))?),
        "open_autocomplete" => json!(e.open_autocomplete()),
        "finish_autocomplete" => json!(e.finish_autocomplete(arg(q, 0))),
        "move_in_autocomplete" => json!(e.move_in_autocomplete(arg(q, 0))),
        "get_autocomplete" => js(e.get_autocomplete())?,
        "get_caret" => js(e.get_caret())?,
        "get_input_tree" => js(e.get_input_tree())?,
        "get_syntax_tree" => js(e.get_syntax_tree())?,
        "splice_at_range" => json!(e.splice_at_range(arg(q, 0), JsValue(arg(q, 1))).map_err(|e| e.0)?),
        x => return Err(json!(format!("no such function: {x}"))),
    })
}

fn serve() {
    install_quiet_hook();
    let mut host = Host::default();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let q: Value = serde_json::from_str(&line).expect("request");
        let a = match guard(|| host.call(&q)) {
            Ok(Ok(v)) => json!({ "ok": v }),
            Ok(Err(v)) => json!({ "err": v }),
            Err(p) => json!({ "panic": p.to_string() }),
        };
        serde_json::to_writer(&mut out, &a).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("SERVE") {
        // deep formulas recurse deeply
        std::thread::Builder::new().stack_size(512 << 20).spawn(serve).unwrap().join().unwrap();
        return;
    }
    main_with(&[("C37", bindings::c37)])
}
