//! Stand-in for wasm-bindgen outside of a browser: values of the page as an enumeration, and the
//! functions imported from it answered by the host set by the harness.
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;
pub mod prelude {
    pub use crate::{wasm_bindgen, JsError, JsValue};
}

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    BigInt(String),
    Str(String),
    Array(Vec<JsValue>),
    Object(Rc<BTreeMap<String, JsValue>>),
    Any(Rc<dyn Any>),
}
use JsValue::*;
impl JsValue {
    pub const UNDEFINED: JsValue = Undefined;
    pub const NULL: JsValue = Null;
    pub fn any<T: 'static>(v: T) -> Self {
        Any(Rc::new(v))
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            Bool(n) => Some(*n),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, Undefined)
    }
    pub fn is_string(&self) -> bool {
        matches!(self, Str(_))
    }
    pub fn from_str(s: &str) -> Self {
        Str(s.into())
    }
    /// what `${v}` gives
    pub fn template(&self) -> String {
        match self {
            Undefined => "undefined".into(),
            Null => "null".into(),
            Bool(b) => b.to_string(),
            Number(n) if n.is_nan() => "NaN".into(),
            Number(n) if n.is_infinite() => if *n > 0.0 { "Infinity" } else { "-Infinity" }.into(),
            Number(n) if *n == 0.0 => "0".into(),
            Number(n) if n.abs() >= 1e21 || n.abs() < 1e-6 => {
                let s = format!("{:e}", n);
                match s.split_once('e') {
                    Some((m, e)) if !e.starts_with('-') => format!("{m}e+{e}"),
                    _ => s,
                }
            }
            Number(n) => n.to_string(),
            BigInt(s) | Str(s) => s.clone(),
            Array(a) => a.iter().map(|x| if x.is_null() || x.is_undefined() { "".into() } else { x.template() }).collect::<Vec<_>>().join(","),
            Object(_) | Any(_) => "[object Object]".into(),
        }
    }
}
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JsValue({})", self.template())
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Undefined, Undefined) | (Null, Null) => true,
            (Bool(a), Bool(b)) => a == b,
            (Number(a), Number(b)) => a == b,
            (BigInt(a), BigInt(b)) | (Str(a), Str(b)) => a == b,
            _ => false,
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Str(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        Bool(s)
    }
}
impl From<f64> for JsValue {
    fn from(s: f64) -> Self {
        Number(s)
    }
}

#[derive(Debug, Clone)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.into())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}

type Host = Box<dyn Fn(&str, Option<&str>, Vec<JsValue>) -> Result<JsValue, JsValue>>;
thread_local! {
    static HOST: RefCell<Option<Rc<Host>>> = RefCell::new(None);
}
pub fn host(h: Host) {
    HOST.with(|x| *x.borrow_mut() = Some(Rc::new(h)))
}
pub fn call(name: &str, source: Option<&str>, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    let h = HOST.with(|x| x.borrow().clone()).expect("HARNESS no host");
    h(name, source, args)
}
pub async fn call_async(name: &str, source: Option<&str>, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    // the page answers later
    let mut first = true;
    std::future::poll_fn(|cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        } else {
            std::task::Poll::Ready(())
        }
    })
    .await;
    call(name, source, args)
}
pub fn call_method(this: &JsValue, name: &str, mut args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    args.insert(0, this.clone());
    call(name, None, args)
}
pub fn get(this: &JsValue, name: &str) -> Result<JsValue, JsValue> {
    match this {
        Object(o) => Ok(o.get(name).cloned().unwrap_or(Undefined)),
        _ => Ok(Undefined),
    }
}

pub trait ToJs {
    fn to_js(&self) -> JsValue;
}
impl<T: ToJs + ?Sized> ToJs for &T {
    fn to_js(&self) -> JsValue {
        (**self).to_js()
    }
}
impl ToJs for JsValue {
    fn to_js(&self) -> JsValue {
        self.clone()
    }
}
impl ToJs for str {
    fn to_js(&self) -> JsValue {
        Str(self.into())
    }
}
impl ToJs for String {
    fn to_js(&self) -> JsValue {
        Str(self.clone())
    }
}
impl ToJs for usize {
    fn to_js(&self) -> JsValue {
        Number(*self as u32 as f64)
    }
}
impl<T: ToJs> ToJs for Vec<T> {
    fn to_js(&self) -> JsValue {
        Array(self.iter().map(|x| x.to_js()).collect())
    }
}
pub trait FromJs {
    fn from_js(v: Result<JsValue, JsValue>) -> Self;
}
fn sure(v: Result<JsValue, JsValue>) -> JsValue {
    v.expect("an exception of the page nobody catches")
}
impl FromJs for () {
    fn from_js(v: Result<JsValue, JsValue>) {
        sure(v);
    }
}
impl FromJs for JsValue {
    fn from_js(v: Result<JsValue, JsValue>) -> Self {
        sure(v)
    }
}
impl FromJs for String {
    fn from_js(v: Result<JsValue, JsValue>) -> Self {
        sure(v).as_string().expect("a string from the page")
    }
}
impl FromJs for Option<String> {
    fn from_js(v: Result<JsValue, JsValue>) -> Self {
        match sure(v) {
            Undefined | Null => None,
            v => Some(v.as_string().expect("a string from the page")),
        }
    }
}
impl FromJs for Option<u32> {
    fn from_js(v: Result<JsValue, JsValue>) -> Self {
        match sure(v) {
            Undefined | Null => None,
            Number(n) => Some(n as i64 as u32),
            _ => panic!("a number from the page"),
        }
    }
}
impl<T: FromJs> FromJs for Result<T, JsValue> {
    fn from_js(v: Result<JsValue, JsValue>) -> Self {
        v.map(|x| T::from_js(Ok(x)))
    }
}
