//! Stand-in for `wasm-bindgen`: script values, and the nodes of a document as one kind of them.
use std::cell::RefCell;
use std::fmt;
use std::rc::{Rc, Weak};
pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude { pub use super::{JsCast, JsValue, UnwrapThrowExt, wasm_bindgen}; }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Element, Text, Comment, Document, Fragment }
pub struct Dom {
    pub ty: Ty,
    /// qualified name as written, and namespace
    pub name: String, pub ns: String,
    /// text or comment
    pub data: RefCell<String>,
    /// namespace, qualified name, value
    pub attrs: RefCell<Vec<JsValue>>,
    pub parent: RefCell<Option<Weak<Val>>>,
    pub kids: RefCell<Vec<JsValue>>,
    /// content of a template element
    pub content: RefCell<Option<JsValue>>,
}
pub struct AttrData { pub ns: String, pub name: String, pub value: RefCell<String> }
pub enum Val { Undefined, Null, Bool(bool), Num(f64), Str(String), Obj(RefCell<Vec<(String, JsValue)>>), Node(Dom), Attr(AttrData), List(Vec<JsValue>) }

#[repr(transparent)]
#[derive(Clone)]
pub struct JsValue(pub Rc<Val>);
impl JsValue {
    pub const fn dummy() {}
    pub fn make(v: Val) -> Self { JsValue(Rc::new(v)) }
    #[allow(non_upper_case_globals)]
    pub fn undefined() -> Self { Self::make(Val::Undefined) }
    pub fn null() -> Self { Self::make(Val::Null) }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self { Self::make(Val::Str(s.to_owned())) }
    pub fn from_f64(n: f64) -> Self { Self::make(Val::Num(n)) }
    pub fn from_bool(b: bool) -> Self { Self::make(Val::Bool(b)) }
    pub fn as_string(&self) -> Option<String> { match &*self.0 { Val::Str(s) => Some(s.clone()), _ => None } }
    pub fn as_f64(&self) -> Option<f64> { match &*self.0 { Val::Num(n) => Some(*n), _ => None } }
    pub fn as_bool(&self) -> Option<bool> { match &*self.0 { Val::Bool(b) => Some(*b), _ => None } }
    pub fn is_undefined(&self) -> bool { matches!(&*self.0, Val::Undefined) }
    pub fn is_null(&self) -> bool { matches!(&*self.0, Val::Null) }
    pub fn is_string(&self) -> bool { matches!(&*self.0, Val::Str(_)) }
    pub fn is_object(&self) -> bool { matches!(&*self.0, Val::Obj(_) | Val::Node(_)) }
    pub fn node(&self) -> &Dom { match &*self.0 { Val::Node(d) => d, _ => panic!("not a node") } }
    pub fn same(&self, o: &JsValue) -> bool { Rc::ptr_eq(&self.0, &o.0) }
}
impl Default for JsValue { fn default() -> Self { Self::undefined() } }
impl PartialEq for JsValue { fn eq(&self, o: &Self) -> bool { match (&*self.0, &*o.0) { (Val::Str(a), Val::Str(b)) => a == b, _ => self.same(o) } } }
impl fmt::Debug for JsValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match &*self.0 { Val::Str(s) => write!(f, "JsValue({s:?})"), _ => f.write_str("JsValue") } } }
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue::make(Val::Str(s)) } }
impl From<&String> for JsValue { fn from(s: &String) -> Self { JsValue::from_str(s) } }
impl From<bool> for JsValue { fn from(b: bool) -> Self { JsValue::from_bool(b) } }
impl From<u32> for JsValue { fn from(b: u32) -> Self { JsValue::from_f64(b as f64) } }
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }

/// Types are views of a value: `repr(transparent)` around [`JsValue`].
pub trait JsCast: AsRef<JsValue> + Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn has_type<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn unchecked_ref<T: JsCast>(&self) -> &T { unsafe { &*(self.as_ref() as *const JsValue as *const T) } }
    fn unchecked_into<T: JsCast>(self) -> T { self.unchecked_ref::<T>().dup() }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> { if T::instanceof(self.as_ref()) { Some(self.unchecked_ref()) } else { None } }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> { if T::instanceof(self.as_ref()) { Ok(self.unchecked_into()) } else { Err(self) } }
    fn dup(&self) -> Self { let v = self.as_ref().clone(); let r = unsafe { std::ptr::read(&v as *const JsValue as *const Self) }; std::mem::forget(v); r }
}
impl JsCast for JsValue { fn instanceof(_: &JsValue) -> bool { true } }
pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } }

/// Declares views: `view! { Node: EventTarget if |v| cond }`.
#[macro_export]
macro_rules! view { ($($t:ident : $up:ty , $($anc:ty),* ; $v:ident => $c:expr)*) => { $(
    #[repr(transparent)]
    #[derive(Clone, PartialEq, Debug)]
    pub struct $t(pub $up);
    impl std::ops::Deref for $t { type Target = $up; fn deref(&self) -> &$up { &self.0 } }
    impl $crate::JsCast for $t { fn instanceof($v: &$crate::JsValue) -> bool { $c } }
    impl From<$t> for $up { fn from(x: $t) -> $up { x.0 } }
    impl AsRef<$up> for $t { fn as_ref(&self) -> &$up { &self.0 } }
    $( impl From<$t> for $anc { fn from(x: $t) -> $anc { $crate::JsCast::unchecked_into(x) } }
       impl AsRef<$anc> for $t { fn as_ref(&self) -> &$anc { let v: &$crate::JsValue = $crate::base(self); unsafe { &*(v as *const $crate::JsValue as *const $anc) } } } )*
)* } }
/// The value under a view.
pub fn base<T>(v: &T) -> &JsValue { unsafe { &*(v as *const T as *const JsValue) } }
