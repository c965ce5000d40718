//! Stand-in for wasm-bindgen on the host: JavaScript values are a small data type, host objects are Rust
//! trait objects, exported classes are carried as opaque values.
use std::{any::Any, cell::RefCell, fmt, rc::Rc};
pub mod prelude { pub use crate::JsValue; pub use wasm_bindgen_macro::wasm_bindgen; }
use serde_json::Value;

/// an object of the JavaScript program with async methods
pub trait Host { fn call(&self, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue>; }
#[derive(Clone)]
pub enum JsValue { Undefined, Json(Value), Array(Rc<RefCell<Vec<JsValue>>>), Error(Rc<RefCell<(Value, Value)>>), Rust(Rc<dyn Any>), Host(Rc<dyn Host>) }
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JsValue(")?; f.write_str(&self.stringify())?; f.write_str(")") }
}
impl JsValue {
    pub const NULL: JsValue = JsValue::Json(Value::Null);
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue { JsValue::Json(Value::String(s.to_string())) }
    pub fn from_rust<T: 'static>(t: T) -> JsValue { JsValue::Rust(Rc::new(t)) }
    pub fn as_string(&self) -> Option<String> { match self { JsValue::Json(Value::String(s)) => Some(s.clone()), _ => None } }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
    pub fn is_null(&self) -> bool { matches!(self, JsValue::Json(Value::Null)) }
    pub fn to_value(&self) -> Value {
        match self { JsValue::Json(v) => v.clone(), JsValue::Array(a) => Value::Array(a.borrow().iter().map(|v| v.to_value()).collect()), JsValue::Undefined => Value::Null, _ => Value::Object(Default::default()) }
    }
    /// JSON.stringify
    pub fn stringify(&self) -> String { self.to_value().to_string() }
    pub fn into_serde<T: for<'a> serde::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        let s = self.stringify();
        serde_json::from_str(&s)
    }
    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(JsValue::Json(serde_json::from_str(&s)?))
    }
}
impl From<&str> for JsValue { fn from(s: &str) -> JsValue { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue::Json(Value::String(s)) } }
impl From<&String> for JsValue { fn from(s: &String) -> JsValue { JsValue::from_str(s) } }
impl From<bool> for JsValue { fn from(b: bool) -> JsValue { JsValue::Json(Value::Bool(b)) } }
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }
/// host object call with the values converted
pub async fn call(this: &JsValue, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    match this { JsValue::Host(h) => h.call(name, args), _ => Err(JsValue::from_str("not an object")) }
}
/// cast between the transparent wrappers around JsValue
pub trait JsCast: Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn wrap(v: JsValue) -> Self;
    fn wrap_ref(v: &JsValue) -> &Self;
    fn value(&self) -> &JsValue;
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> { if T::instanceof(self.value()) { Some(T::wrap_ref(self.value())) } else { None } }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> { if T::instanceof(self.value()) { Ok(T::wrap(self.value().clone())) } else { Err(self) } }
    fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self.value()) }
    fn has_type<T: JsCast>(&self) -> bool { T::instanceof(self.value()) }
    fn unchecked_into<T: JsCast>(self) -> T { T::wrap(self.value().clone()) }
    fn unchecked_ref<T: JsCast>(&self) -> &T { T::wrap_ref(self.value()) }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool { true }
    fn wrap(v: JsValue) -> Self { v }
    fn wrap_ref(v: &JsValue) -> &Self { v }
    fn value(&self) -> &JsValue { self }
}
/// declares a transparent wrapper class
#[macro_export]
macro_rules! class {
    ($n:ident, |$v:ident| $is:expr) => {
        #[derive(Clone)]
        #[repr(transparent)]
        pub struct $n(pub $crate::JsValue);
        impl ::std::ops::Deref for $n { type Target = $crate::JsValue; fn deref(&self) -> &$crate::JsValue { &self.0 } }
        impl AsRef<$crate::JsValue> for $n { fn as_ref(&self) -> &$crate::JsValue { &self.0 } }
        impl From<$n> for $crate::JsValue { fn from(x: $n) -> $crate::JsValue { x.0 } }
        impl From<$crate::JsValue> for $n { fn from(x: $crate::JsValue) -> $n { $n(x) } }
        impl ::std::fmt::Debug for $n { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(&self.0, f) } }
        impl $crate::JsCast for $n {
            fn instanceof($v: &$crate::JsValue) -> bool { $is }
            fn wrap(v: $crate::JsValue) -> Self { $n(v) }
            fn wrap_ref(v: &$crate::JsValue) -> &Self { unsafe { &*(v as *const $crate::JsValue as *const $n) } }
            fn value(&self) -> &$crate::JsValue { &self.0 }
        }
    };
}
