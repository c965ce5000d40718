//! Stand-in for js-sys on the host.
use std::{cell::RefCell, rc::Rc};
use wasm_bindgen::{class, JsValue};
class!(JsString, |v| v.as_string().is_some());
class!(Error, |v| matches!(v, JsValue::Error(_)));
class!(Array, |v| matches!(v, JsValue::Array(_)) || v.to_value().is_array());
class!(Promise, |_v| false);
impl From<&str> for JsString { fn from(s: &str) -> JsString { JsString(JsValue::from_str(s)) } }
fn val(v: &serde_json::Value) -> JsValue { JsValue::Json(v.clone()) }
impl Error {
    pub fn new(message: &str) -> Error { Error::of(JsValue::from_str("Error"), JsValue::from_str(message)) }
    /// an error whose name and message are any values
    pub fn of(name: JsValue, message: JsValue) -> Error { Error(JsValue::Error(Rc::new(RefCell::new((name.to_value(), message.to_value()))))) }
    fn cell(&self) -> &RefCell<(serde_json::Value, serde_json::Value)> { match &self.0 { JsValue::Error(e) => e, _ => panic!("not an error") } }
    pub fn name(&self) -> JsString { JsString(val(&self.cell().borrow().0)) }
    pub fn set_name(&self, n: &str) { self.cell().borrow_mut().0 = serde_json::Value::String(n.to_string()); }
    pub fn message(&self) -> JsString { JsString(val(&self.cell().borrow().1)) }
    pub fn set_message(&self, n: &str) { self.cell().borrow_mut().1 = serde_json::Value::String(n.to_string()); }
}
impl Array {
    pub fn new() -> Array { Array::new_with_length(0) }
    pub fn new_with_length(n: u32) -> Array { Array(JsValue::Array(Rc::new(RefCell::new(vec![JsValue::UNDEFINED; n as usize])))) }
    pub fn to_vec(&self) -> Vec<JsValue> { match &self.0 { JsValue::Array(a) => a.borrow().clone(), JsValue::Json(serde_json::Value::Array(a)) => a.iter().map(val).collect(), _ => vec![] } }
    pub fn set(&self, i: u32, v: JsValue) { if let JsValue::Array(a) = &self.0 { let mut a = a.borrow_mut(); while a.len() <= i as usize { a.push(JsValue::UNDEFINED); } a[i as usize] = v; } }
    pub fn get(&self, i: u32) -> JsValue { self.to_vec().get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED) }
    pub fn push(&self, v: &JsValue) -> u32 { if let JsValue::Array(a) = &self.0 { a.borrow_mut().push(v.clone()); } self.length() }
    pub fn length(&self) -> u32 { self.to_vec().len() as u32 }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> { self.to_vec().into_iter() }
}
impl Default for Array { fn default() -> Array { Array::new() } }
impl<A: AsRef<JsValue>> FromIterator<A> for Array { fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Array { Array(JsValue::Array(Rc::new(RefCell::new(i.into_iter().map(|v| v.as_ref().clone()).collect())))) } }
/// a settled promise
impl Promise {
    pub fn settled(r: Result<JsValue, JsValue>) -> Promise { let (k, v) = match r { Ok(v) => (true, v), Err(v) => (false, v) }; Promise(JsValue::Array(Rc::new(RefCell::new(vec![JsValue::from(k), v])))) }
    pub fn outcome(&self) -> Result<JsValue, JsValue> { let a = Array(self.0.clone()).to_vec(); if a[0].to_value() == serde_json::Value::Bool(true) { Ok(a[1].clone()) } else { Err(a[1].clone()) } }
}
