#[derive(Clone, Debug)]
pub struct JsValue(pub serde_json::Value);
pub mod prelude {
    pub use super::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}
