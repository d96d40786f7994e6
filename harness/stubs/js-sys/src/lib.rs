//! Stand-in for js-sys.
use wasm_bindgen::{JsValue, ToJs};

#[derive(Clone, Debug, PartialEq)]
pub struct JsString(String);
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString(s)
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString(s.into())
    }
}
impl ToJs for JsString {
    fn to_js(&self) -> JsValue {
        self.0.to_js()
    }
}

#[derive(Clone, Debug)]
pub struct Array(pub Vec<JsValue>);
impl Array {
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.clone()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.0.clone().into_iter()
    }
}
impl FromIterator<JsValue> for Array {
    fn from_iter<I: IntoIterator<Item = JsValue>>(i: I) -> Self {
        Array(i.into_iter().collect())
    }
}

#[derive(Clone, Debug)]
pub struct Uint8Array(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Uint8Array {
    pub fn new_with_length(n: u32) -> Self {
        Uint8Array(std::rc::Rc::new(std::cell::RefCell::new(vec![0; n as usize])))
    }
    pub fn copy_from(&self, b: &[u8]) {
        self.0.borrow_mut().copy_from_slice(b)
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
}
impl ToJs for Uint8Array {
    fn to_js(&self) -> JsValue {
        JsValue::any(self.to_vec())
    }
}
