//! Stand-in for `js-sys`.
use std::cell::RefCell;
use wasm_bindgen::{JsCast, JsValue, Val, view};
view! { Object: JsValue, ; v => v.is_object() }
impl Object { #[allow(clippy::new_without_default)] pub fn new() -> Self { Object(JsValue::make(Val::Obj(RefCell::new(vec![])))) } }
pub struct Reflect;
#[allow(non_snake_case)]
impl Reflect {
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        let k = key.as_string().unwrap_or_default();
        match &*target.0 { Val::Obj(f) => { let mut f = f.borrow_mut(); f.retain(|x| x.0 != k); f.push((k, value.clone())); Ok(true) } _ => Err(JsValue::from_str("not an object")) }
    }
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        let k = key.as_string().unwrap_or_default();
        match &*target.0 { Val::Obj(f) => Ok(f.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default()), _ => Err(JsValue::from_str("not an object")) }
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> { Ok(!Self::get(target, key)?.is_undefined()) }
}
pub struct JsString(String);
impl JsString { pub fn as_string(&self) -> Option<String> { Some(self.0.clone()) } }
#[allow(non_snake_case)]
pub mod JSON { use super::*; pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> { v.as_string().map(JsString).ok_or_else(|| v.clone()) } }
pub fn is<T: JsCast>(v: &JsValue) -> bool { T::instanceof(v) }
