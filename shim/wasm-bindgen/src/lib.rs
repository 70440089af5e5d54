pub use wasm_bindgen_macro::wasm_bindgen;
/// A value on the JavaScript side.
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub serde_json::Value);
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(serde_json::Value::Null);
    pub const NULL: JsValue = JsValue(serde_json::Value::Null);
    pub fn from_str(s: &str) -> JsValue {
        JsValue(serde_json::Value::String(s.to_string()))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::from_str(&s)
    }
}
pub type JsError = JsValue;
pub mod prelude {
    pub use crate::{wasm_bindgen, JsError, JsValue};
}
