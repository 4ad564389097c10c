//! The classes of JavaScript that the glue crate may use.
use std::{cell::RefCell, rc::Rc};
use wasm_bindgen::{Val, __js_type, JsValue};

__js_type! { pub Function: v => v.is_function() }
impl Function {
	/// A function that is one of Rust's (of the harness).
	pub fn of(f: impl Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue> + 'static) -> Function { JsValue(Val::Function(Rc::new(f))).into() }
	fn call(&self, this: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
		match &(**self).0 {
			Val::Function(f) => f(this, args),
			_ => Err(JsValue(Val::Error("TypeError: not a function".into()))),
		}
	}
	pub fn call0(&self, this: &JsValue) -> Result<JsValue, JsValue> { self.call(this, &[]) }
	pub fn call1(&self, this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> { self.call(this, &[a.clone()]) }
	pub fn call2(&self, this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> { self.call(this, &[a.clone(), b.clone()]) }
	pub fn call3(&self, this: &JsValue, a: &JsValue, b: &JsValue, c: &JsValue) -> Result<JsValue, JsValue> { self.call(this, &[a.clone(), b.clone(), c.clone()]) }
	pub fn apply(&self, this: &JsValue, args: &Array) -> Result<JsValue, JsValue> { self.call(this, &args.to_vec()) }
}

__js_type! { pub Object: v => v.is_object() }
__js_type! { pub JsString: v => v.is_string() }
impl From<&str> for JsString {
	fn from(s: &str) -> Self { JsValue::from(s).into() }
}
impl From<String> for JsString {
	fn from(s: String) -> Self { JsValue::from(s).into() }
}
impl From<JsString> for String {
	fn from(s: JsString) -> Self { s.as_string().unwrap() }
}

__js_type! { pub ArrayBuffer: v => matches!(v.0, Val::ArrayBuffer(_)) }
impl ArrayBuffer {
	pub fn new(n: u32) -> ArrayBuffer { JsValue(Val::ArrayBuffer(Rc::new(RefCell::new(vec![0; n as usize])))).into() }
	pub fn byte_length(&self) -> u32 { if let Val::ArrayBuffer(b) = &(**self).0 { b.borrow().len() as u32 } else { panic!() } }
}

__js_type! { pub Uint8Array: v => matches!(v.0, Val::Bytes(..)) }
impl Uint8Array {
	fn parts(&self) -> (Rc<RefCell<Vec<u8>>>, usize, usize) {
		match &(**self).0 {
			Val::Bytes(b, at, n) => (b.clone(), *at, *n),
			o => panic!("not a Uint8Array: {:?}", JsValue(o.clone())),
		}
	}
	fn whole(v: Vec<u8>) -> Uint8Array { let n = v.len(); JsValue(Val::Bytes(Rc::new(RefCell::new(v)), 0, n)).into() }
	/// Shares an array buffer; copies an array.
	pub fn new(v: &JsValue) -> Uint8Array {
		match &v.0 {
			Val::ArrayBuffer(b) => { let n = b.borrow().len(); JsValue(Val::Bytes(b.clone(), 0, n)).into() }
			Val::Bytes(b, at, n) => Self::whole(b.borrow()[*at..at + n].to_vec()),
			Val::Number(n) => Self::whole(vec![0; *n as usize]),
			Val::Array(a) => Self::whole(a.borrow().iter().map(|x| x.as_f64().unwrap_or(0.0) as u8).collect()),
			_ => Self::whole(vec![]),
		}
	}
	pub fn new_with_length(n: u32) -> Uint8Array { Self::whole(vec![0; n as usize]) }
	pub fn new_with_byte_offset(v: &JsValue, at: u32) -> Uint8Array {
		match &v.0 {
			Val::ArrayBuffer(b) => { let n = b.borrow().len(); JsValue(Val::Bytes(b.clone(), at as usize, n - at as usize)).into() }
			_ => Self::new(v),
		}
	}
	pub fn new_with_byte_offset_and_length(v: &JsValue, at: u32, n: u32) -> Uint8Array {
		match &v.0 {
			Val::ArrayBuffer(b) => { assert!((at + n) as usize <= b.borrow().len()); JsValue(Val::Bytes(b.clone(), at as usize, n as usize)).into() }
			_ => Self::new(v),
		}
	}
	/// # Safety
	/// As that of the real one, which is a view of the module's memory. This one is a copy.
	pub unsafe fn view(src: &[u8]) -> Uint8Array { Self::from(src) }
	pub fn to_vec(&self) -> Vec<u8> { let (b, at, n) = self.parts(); let v = b.borrow()[at..at + n].to_vec(); v }
	pub fn copy_from(&self, src: &[u8]) { let (b, at, n) = self.parts(); assert_eq!(n, src.len()); b.borrow_mut()[at..at + n].copy_from_slice(src); }
	pub fn copy_to(&self, dst: &mut [u8]) { let (b, at, n) = self.parts(); assert_eq!(n, dst.len()); dst.copy_from_slice(&b.borrow()[at..at + n]); }
	pub fn length(&self) -> u32 { self.parts().2 as u32 }
	pub fn byte_length(&self) -> u32 { self.length() }
	pub fn byte_offset(&self) -> u32 { self.parts().1 as u32 }
	pub fn buffer(&self) -> ArrayBuffer { JsValue(Val::ArrayBuffer(self.parts().0)).into() }
	pub fn get_index(&self, i: u32) -> u8 { self.to_vec()[i as usize] }
	pub fn set_index(&self, i: u32, v: u8) { let (b, at, _) = self.parts(); b.borrow_mut()[at + i as usize] = v; }
	pub fn set(&self, src: &JsValue, at: u32) {
		let v = Uint8Array::new(src).to_vec();
		let (b, from, n) = self.parts();
		assert!(at as usize + v.len() <= n, "RangeError");
		b.borrow_mut()[from + at as usize..][..v.len()].copy_from_slice(&v);
	}
	pub fn fill(&self, v: u8, from: u32, to: u32) -> Uint8Array { let (b, at, n) = self.parts(); b.borrow_mut()[at..][..n][from as usize..(to as usize).min(n)].fill(v); self.clone() }
	pub fn subarray(&self, from: u32, to: u32) -> Uint8Array { let (b, at, n) = self.parts(); let (f, t) = ((from as usize).min(n), (to as usize).min(n)); JsValue(Val::Bytes(b, at + f, t.saturating_sub(f))).into() }
	pub fn slice(&self, from: u32, to: u32) -> Uint8Array { Self::whole(self.subarray(from, to).to_vec()) }
}
impl From<&[u8]> for Uint8Array {
	fn from(v: &[u8]) -> Self { Self::whole(v.to_vec()) }
}

__js_type! { pub Array: v => v.is_array() }
impl Array {
	#[allow(clippy::new_without_default)]
	pub fn new() -> Array { JsValue(Val::Array(Default::default())).into() }
	pub fn of1(a: &JsValue) -> Array { let x = Array::new(); x.push(a); x }
	fn inner(&self) -> Rc<RefCell<Vec<JsValue>>> { if let Val::Array(a) = &(**self).0 { a.clone() } else { panic!("not an array") } }
	pub fn push(&self, v: &JsValue) -> u32 { self.inner().borrow_mut().push(v.clone()); self.length() }
	pub fn length(&self) -> u32 { self.inner().borrow().len() as u32 }
	pub fn get(&self, i: u32) -> JsValue { self.inner().borrow().get(i as usize).cloned().unwrap_or_default() }
	pub fn to_vec(&self) -> Vec<JsValue> { self.inner().borrow().clone() }
}

macro_rules! errors { ($($name:ident)*) => { $(
	__js_type! { pub $name: v => matches!(v.0, Val::Error(_)) }
	impl $name {
		pub fn new(message: &str) -> $name { JsValue(Val::Error(message.into())).into() }
		pub fn message(&self) -> JsString { if let Val::Error(e) = &(**self).0 { JsString::from(&**e) } else { JsString::from("") } }
		pub fn name(&self) -> JsString { JsString::from(stringify!($name)) }
		pub fn to_string(&self) -> JsString { JsString::from(format!("{}: {}", stringify!($name), String::from(self.message()))) }
	}
)* } }
errors! { Error TypeError RangeError SyntaxError }
