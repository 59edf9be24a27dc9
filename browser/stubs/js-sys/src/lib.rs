use std::sync::{Arc, Mutex};
use wasm_bindgen::{JsCast, JsValue};

macro_rules! class {
    ($t:ident, $p:pat) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $t(JsValue);
        impl JsCast for $t {
            fn instanceof(v: &JsValue) -> bool {
                matches!(v, $p)
            }
            fn from_js(v: JsValue) -> Self {
                $t(v)
            }
            fn js(&self) -> JsValue {
                self.0.clone()
            }
        }
        impl From<$t> for JsValue {
            fn from(x: $t) -> JsValue {
                x.0
            }
        }
        impl From<JsValue> for $t {
            fn from(x: JsValue) -> $t {
                $t(x)
            }
        }
        impl AsRef<JsValue> for $t {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl std::ops::Deref for $t {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
    };
}
class!(Date, JsValue::Date(_));
class!(Object, JsValue::Object(_) | JsValue::Array(_) | JsValue::Date(_) | JsValue::Doc(_));

impl Date {
    pub fn get_time(&self) -> f64 {
        match &self.0 {
            JsValue::Date(t) => *t,
            _ => f64::NAN,
        }
    }
    pub fn value_of(&self) -> f64 {
        self.get_time()
    }
}
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        Object(JsValue::Object(Arc::new(Mutex::new(Vec::new()))))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Array(JsValue);
impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        Array(JsValue::Array(Arc::new(Mutex::new(Vec::new()))))
    }
    pub fn is_array(v: &JsValue) -> bool {
        matches!(v, JsValue::Array(_)) || matches!(v, JsValue::Doc(d) if d.is_array())
    }
    /// Array.from: of an array a copy, of a text its characters, of anything else nothing
    pub fn from(v: &JsValue) -> Array {
        let items = match v {
            JsValue::Array(a) => a.lock().unwrap().clone(),
            JsValue::Doc(d) => d.as_array().map(|a| a.iter().map(|x| JsValue::Doc(Arc::new(x.clone()))).collect()).unwrap_or_default(),
            JsValue::Str(s) => s.chars().map(|c| JsValue::Str(c.to_string())).collect(),
            JsValue::Undefined | JsValue::Null => panic!("TypeError: {v:?} is not iterable"),
            _ => Vec::new(),
        };
        Array(JsValue::Array(Arc::new(Mutex::new(items))))
    }
    fn items(&self) -> Vec<JsValue> {
        match &self.0 {
            JsValue::Array(a) => a.lock().unwrap().clone(),
            _ => Vec::new(),
        }
    }
    pub fn length(&self) -> u32 {
        self.items().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        if let JsValue::Array(a) = &self.0 {
            a.lock().unwrap().push(v.clone());
        }
        self.length()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.items().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items()
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.items().into_iter()
    }
}
impl From<Array> for JsValue {
    fn from(x: Array) -> JsValue {
        x.0
    }
}
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl std::ops::Deref for Array {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.0
    }
}
impl JsCast for Array {
    fn instanceof(v: &JsValue) -> bool {
        Array::is_array(v)
    }
    fn from_js(v: JsValue) -> Self {
        Array(v)
    }
    fn js(&self) -> JsValue {
        self.0.clone()
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use wasm_bindgen::JsValue;
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        match (o, k) {
            (JsValue::Object(o), JsValue::Str(k)) => {
                Ok(o.lock().unwrap().iter().find(|e| e.0 == *k).map(|e| e.1.clone()).unwrap_or(JsValue::Undefined))
            }
            (JsValue::Array(a), JsValue::Num(i)) => Ok(a.lock().unwrap().get(*i as usize).cloned().unwrap_or(JsValue::Undefined)),
            (JsValue::Object(_) | JsValue::Array(_) | JsValue::Date(_) | JsValue::Doc(_), _) => Ok(JsValue::Undefined),
            _ => Err(JsValue::from_str("TypeError: Reflect.get called on non-object")),
        }
    }
    pub fn has(o: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        Ok(match (o, k) {
            (JsValue::Object(o), JsValue::Str(k)) => o.lock().unwrap().iter().any(|e| e.0 == *k),
            _ => false,
        })
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        match (o, k) {
            (JsValue::Object(o), JsValue::Str(k)) => {
                let mut o = o.lock().unwrap();
                match o.iter_mut().find(|e| e.0 == *k) {
                    Some(e) => e.1 = v.clone(),
                    None => o.push((k.clone(), v.clone())),
                }
                Ok(true)
            }
            _ => Err(JsValue::from_str("TypeError: Reflect.set called on non-object")),
        }
    }
}
