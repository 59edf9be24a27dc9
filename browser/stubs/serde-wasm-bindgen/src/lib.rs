use std::sync::Arc;
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::Str(e.0)
    }
}
pub fn to_value<T: serde::Serialize + ?Sized>(v: &T) -> Result<JsValue, Error> {
    serde_json::to_value(v).map(|v| JsValue::Doc(Arc::new(v))).map_err(|e| Error(e.to_string()))
}
pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T, Error> {
    serde_json::from_value(v.json()).map_err(|e| Error(e.to_string()))
}
