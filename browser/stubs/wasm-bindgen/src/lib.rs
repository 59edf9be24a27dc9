//! JavaScript values as far as the browser reader uses them.
use std::fmt;
use std::sync::{Arc, Mutex};

pub use serde_json;
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Date(f64),
    Array(Arc<Mutex<Vec<JsValue>>>),
    Object(Arc<Mutex<Vec<(String, JsValue)>>>),
    /// what serde_wasm_bindgen made of a Rust value
    Doc(Arc<serde_json::Value>),
}

#[allow(non_upper_case_globals)]
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Num(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Date(_) | JsValue::Array(_) | JsValue::Object(_) | JsValue::Doc(_))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_falsy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null | JsValue::Bool(false) => true,
            JsValue::Num(n) => *n == 0.0 || n.is_nan(),
            JsValue::Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self)
    }
    /// the value as JSON would show it
    pub fn json(&self) -> serde_json::Value {
        use serde_json::{json, Value};
        match self {
            JsValue::Undefined | JsValue::Null => Value::Null,
            JsValue::Bool(b) => json!(b),
            JsValue::Num(n) => json!(n),
            JsValue::Str(s) => json!(s),
            JsValue::Date(t) => json!({ "date": t }),
            JsValue::Array(a) => Value::Array(a.lock().unwrap().iter().map(|v| v.json()).collect()),
            JsValue::Object(o) => Value::Object(o.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.json())).collect()),
            JsValue::Doc(d) => (**d).clone(),
        }
    }
    /// and back; {"date": ms} is a Date, {"num": "inf"} a number JSON has no notation for
    pub fn of(v: &serde_json::Value) -> JsValue {
        use serde_json::Value;
        match v {
            Value::Null => JsValue::Null,
            Value::Bool(b) => JsValue::Bool(*b),
            Value::Number(n) => JsValue::Num(n.as_f64().unwrap()),
            Value::String(s) => JsValue::Str(s.clone()),
            Value::Array(a) => JsValue::Array(Arc::new(Mutex::new(a.iter().map(JsValue::of).collect()))),
            Value::Object(o) if o.len() == 1 && o.contains_key("date") => JsValue::Date(o["date"].as_f64().unwrap()),
            Value::Object(o) if o.len() == 1 && o.contains_key("num") => JsValue::Num(o["num"].as_str().unwrap().parse().unwrap()),
            Value::Object(o) => JsValue::Object(Arc::new(Mutex::new(o.iter().map(|(k, v)| (k.clone(), JsValue::of(v))).collect()))),
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "JsValue({})", self.json())
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        self.json() == o.json()
    }
}
macro_rules! from {
    ($t:ty, $x:ident => $e:expr) => {
        impl From<$t> for JsValue {
            fn from($x: $t) -> JsValue {
                $e
            }
        }
    };
}
from!(&str, x => JsValue::from_str(x));
from!(String, x => JsValue::Str(x));
from!(&String, x => JsValue::from_str(x));
from!(bool, x => JsValue::Bool(x));
from!(f64, x => JsValue::Num(x));
from!(f32, x => JsValue::Num(x as f64));
from!(i32, x => JsValue::Num(x as f64));
from!(u32, x => JsValue::Num(x as f64));
impl From<&JsValue> for JsValue {
    fn from(x: &JsValue) -> JsValue {
        x.clone()
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

pub trait JsCast: Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn from_js(v: JsValue) -> Self;
    fn js(&self) -> JsValue;

    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(&self.js())
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::from_js(self.js())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(T::from_js(self.js()))
        } else {
            Err(self)
        }
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn from_js(v: JsValue) -> JsValue {
        v
    }
    fn js(&self) -> JsValue {
        self.clone()
    }
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsValue};
}
