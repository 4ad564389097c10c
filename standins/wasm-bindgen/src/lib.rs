//! The values of JavaScript, without it.
use std::{cell::RefCell, fmt, rc::Rc};
pub use wasm_bindgen_macro::wasm_bindgen;

#[doc(hidden)]
pub type Callback = Rc<dyn Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue>>;

#[doc(hidden)]
#[derive(Clone)]
pub enum Val {
	Undefined,
	Null,
	Bool(bool),
	Number(f64),
	Text(Rc<str>),
	/// A typed array: what is shared, and its part of it.
	Bytes(Rc<RefCell<Vec<u8>>>, usize, usize),
	ArrayBuffer(Rc<RefCell<Vec<u8>>>),
	Error(Rc<str>),
	Array(Rc<RefCell<Vec<JsValue>>>),
	Function(Callback),
	Object(Rc<RefCell<Vec<(String, JsValue)>>>),
}

#[derive(Clone)]
pub struct JsValue(#[doc(hidden)] pub Val);

impl JsValue {
	pub const UNDEFINED: JsValue = JsValue(Val::Undefined);
	pub const NULL: JsValue = JsValue(Val::Null);
	pub const TRUE: JsValue = JsValue(Val::Bool(true));
	pub const FALSE: JsValue = JsValue(Val::Bool(false));

	pub fn undefined() -> Self { Self::UNDEFINED }
	pub fn null() -> Self { Self::NULL }
	#[allow(clippy::should_implement_trait)]
	pub fn from_str(s: &str) -> Self { JsValue(Val::Text(s.into())) }
	pub fn from_f64(n: f64) -> Self { JsValue(Val::Number(n)) }
	pub fn from_bool(b: bool) -> Self { JsValue(Val::Bool(b)) }
	pub fn as_string(&self) -> Option<String> { if let Val::Text(t) = &self.0 { Some(t.to_string()) } else { None } }
	pub fn as_f64(&self) -> Option<f64> { if let Val::Number(n) = self.0 { Some(n) } else { None } }
	pub fn as_bool(&self) -> Option<bool> { if let Val::Bool(b) = self.0 { Some(b) } else { None } }
	pub fn is_undefined(&self) -> bool { matches!(self.0, Val::Undefined) }
	pub fn is_null(&self) -> bool { matches!(self.0, Val::Null) }
	pub fn is_string(&self) -> bool { matches!(self.0, Val::Text(_)) }
	pub fn is_function(&self) -> bool { matches!(self.0, Val::Function(_)) }
	pub fn is_array(&self) -> bool { matches!(self.0, Val::Array(_)) }
	pub fn is_object(&self) -> bool { matches!(self.0, Val::Bytes(..) | Val::ArrayBuffer(_) | Val::Error(_) | Val::Array(_) | Val::Object(_)) }
	pub fn is_truthy(&self) -> bool {
		match &self.0 {
			Val::Undefined | Val::Null => false,
			Val::Bool(b) => *b,
			Val::Number(n) => *n != 0.0 && !n.is_nan(),
			Val::Text(t) => !t.is_empty(),
			_ => true,
		}
	}
	pub fn is_falsy(&self) -> bool { !self.is_truthy() }
}

impl fmt::Debug for JsValue {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match &self.0 {
			Val::Undefined => write!(f, "JsValue(undefined)"),
			Val::Null => write!(f, "JsValue(null)"),
			Val::Bool(b) => write!(f, "JsValue({b})"),
			Val::Number(n) => write!(f, "JsValue({n})"),
			Val::Text(t) => write!(f, "JsValue({t:?})"),
			Val::Bytes(_, _, n) => write!(f, "JsValue(Uint8Array of {n})"),
			Val::ArrayBuffer(_) => write!(f, "JsValue(ArrayBuffer)"),
			Val::Error(e) => write!(f, "JsValue(Error: {e})"),
			Val::Array(a) => write!(f, "JsValue({:?})", a.borrow()),
			Val::Function(_) => write!(f, "JsValue(Function)"),
			Val::Object(o) => write!(f, "JsValue({:?})", o.borrow()),
		}
	}
}
impl Default for JsValue {
	fn default() -> Self { Self::UNDEFINED }
}
impl PartialEq for JsValue {
	fn eq(&self, o: &JsValue) -> bool {
		match (&self.0, &o.0) {
			(Val::Undefined, Val::Undefined) | (Val::Null, Val::Null) => true,
			(Val::Bool(a), Val::Bool(b)) => a == b,
			(Val::Number(a), Val::Number(b)) => a == b,
			(Val::Text(a), Val::Text(b)) => a == b,
			(Val::Bytes(a, i, n), Val::Bytes(b, j, m)) => Rc::ptr_eq(a, b) && i == j && n == m,
			(Val::Error(a), Val::Error(b)) => Rc::ptr_eq(a, b),
			(Val::Array(a), Val::Array(b)) => Rc::ptr_eq(a, b),
			(Val::Object(a), Val::Object(b)) => Rc::ptr_eq(a, b),
			(Val::Function(a), Val::Function(b)) => Rc::ptr_eq(a, b),
			_ => false,
		}
	}
}
impl AsRef<JsValue> for JsValue {
	fn as_ref(&self) -> &JsValue { self }
}
impl From<&str> for JsValue {
	fn from(s: &str) -> Self { Self::from_str(s) }
}
impl From<String> for JsValue {
	fn from(s: String) -> Self { Self::from_str(&s) }
}
impl From<&String> for JsValue {
	fn from(s: &String) -> Self { Self::from_str(s) }
}
impl From<bool> for JsValue {
	fn from(b: bool) -> Self { Self::from_bool(b) }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
	fn from(o: Option<T>) -> Self { o.map_or(Self::UNDEFINED, Into::into) }
}
macro_rules! numbers { ($($t:ty)*) => { $(
	impl From<$t> for JsValue { fn from(n: $t) -> Self { Self::from_f64(n as f64) } }
	impl __ToJs for $t { fn to_js(&self) -> JsValue { JsValue::from(*self) } }
	impl __FromJs for $t { fn from_js(v: JsValue) -> Self { v.as_f64().expect("a number") as $t } }
)* } }
numbers! { u8 i8 u16 i16 u32 i32 f32 f64 usize isize }

#[doc(hidden)]
pub trait __ToJs {
	fn to_js(&self) -> JsValue;
}
#[doc(hidden)]
pub trait __FromJs {
	fn from_js(v: JsValue) -> Self;
}
impl __ToJs for JsValue {
	fn to_js(&self) -> JsValue { self.clone() }
}
impl __ToJs for str {
	fn to_js(&self) -> JsValue { self.into() }
}
impl __ToJs for String {
	fn to_js(&self) -> JsValue { self.into() }
}
impl __ToJs for bool {
	fn to_js(&self) -> JsValue { (*self).into() }
}
impl __ToJs for [u8] {
	fn to_js(&self) -> JsValue { JsValue(Val::Bytes(Rc::new(RefCell::new(self.to_vec())), 0, self.len())) }
}
impl<T: __ToJs + ?Sized> __ToJs for &T {
	fn to_js(&self) -> JsValue { (**self).to_js() }
}
impl __FromJs for JsValue {
	fn from_js(v: JsValue) -> Self { v }
}
impl __FromJs for () {
	fn from_js(_: JsValue) {}
}
impl __FromJs for bool {
	fn from_js(v: JsValue) -> Self { v.as_bool().expect("a boolean") }
}
impl __FromJs for String {
	fn from_js(v: JsValue) -> Self { v.as_string().expect("a string") }
}

thread_local! {
	/// What was written to the console.
	#[doc(hidden)]
	pub static CONSOLE: RefCell<Vec<String>> = RefCell::new(vec![]);
}

/// The functions of the host that the code may import.
#[doc(hidden)]
pub fn __call(path: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
	match (path, args.first().map(|a| &a.0)) {
		// `Buffer.from(typed array)` copies in general; of an array buffer it shares. The binding's comment claims the
		// latter for both; which of them makes no difference as long as nobody writes.
		("Buffer.from", Some(Val::Bytes(b, at, n))) => {
			let copy = b.borrow()[*at..at + n].to_vec();
			Ok(JsValue(Val::Bytes(Rc::new(RefCell::new(copy)), 0, *n)))
		}
		("Buffer.from", Some(Val::ArrayBuffer(b))) => {
			let n = b.borrow().len();
			let at = args.get(1).and_then(|a| a.as_f64()).unwrap_or(0.0) as usize;
			let len = args.get(2).and_then(|a| a.as_f64()).map_or(n - at, |x| x as usize);
			Ok(JsValue(Val::Bytes(b.clone(), at, len)))
		}
		("Buffer.from", Some(Val::Text(t))) => Ok(JsValue(Val::Bytes(Rc::new(RefCell::new(t.as_bytes().to_vec())), 0, t.len()))),
		("Buffer.alloc" | "Buffer.allocUnsafe", Some(Val::Number(n))) => Ok(JsValue(Val::Bytes(Rc::new(RefCell::new(vec![0; *n as usize])), 0, *n as usize))),
		("Buffer.prototype.toString", Some(Val::Bytes(b, at, n))) => Ok(JsValue::from(String::from_utf8_lossy(&b.borrow()[*at..at + n]).to_string())),
		("console.log" | "console.error" | "console.warn" | "console.info" | "console.debug", _) => {
			CONSOLE.with(|c| c.borrow_mut().push(args.iter().map(|a| a.as_string().unwrap_or_else(|| format!("{a:?}"))).collect::<Vec<_>>().join(" ")));
			Ok(JsValue::UNDEFINED)
		}
		_ => panic!("the stand-in for JavaScript has no {path}"),
	}
}

/// A type of JavaScript.
#[macro_export]
#[doc(hidden)]
macro_rules! __js_type {
	($(#[$a:meta])* $vis:vis $name:ident $(: $v:ident => $is:expr)?) => {
		$(#[$a])*
		#[derive(Clone, Debug, PartialEq)]
		#[repr(transparent)]
		$vis struct $name { obj: $crate::JsValue }
		impl ::std::ops::Deref for $name { type Target = $crate::JsValue; fn deref(&self) -> &$crate::JsValue { &self.obj } }
		impl AsRef<$crate::JsValue> for $name { fn as_ref(&self) -> &$crate::JsValue { &self.obj } }
		impl AsRef<$name> for $name { fn as_ref(&self) -> &$name { self } }
		impl From<$name> for $crate::JsValue { fn from(v: $name) -> Self { v.obj } }
		impl From<$crate::JsValue> for $name { fn from(obj: $crate::JsValue) -> Self { $name { obj } } }
		impl $crate::__ToJs for $name { fn to_js(&self) -> $crate::JsValue { self.obj.clone() } }
		impl $crate::__FromJs for $name { fn from_js(obj: $crate::JsValue) -> Self { $name { obj } } }
		impl $crate::JsCast for $name {
			fn instanceof(_val: &$crate::JsValue) -> bool { $( let $v = _val; if !$is { return false } )? true }
			fn unchecked_from_js(obj: $crate::JsValue) -> Self { $name { obj } }
			fn unchecked_from_js_ref(val: &$crate::JsValue) -> &Self { unsafe { &*(val as *const $crate::JsValue as *const $name) } }
		}
	};
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
	fn instanceof(val: &JsValue) -> bool;
	fn unchecked_from_js(val: JsValue) -> Self;
	fn unchecked_from_js_ref(val: &JsValue) -> &Self;
	fn has_type<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
	fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
	fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
		if self.has_type::<T>() { Ok(T::unchecked_from_js(self.into())) } else { Err(self) }
	}
	fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
		if self.has_type::<T>() { Some(T::unchecked_from_js_ref(self.as_ref())) } else { None }
	}
	fn unchecked_into<T: JsCast>(self) -> T { T::unchecked_from_js(self.into()) }
	fn unchecked_ref<T: JsCast>(&self) -> &T { T::unchecked_from_js_ref(self.as_ref()) }
}
impl JsCast for JsValue {
	fn instanceof(_: &JsValue) -> bool { true }
	fn unchecked_from_js(val: JsValue) -> Self { val }
	fn unchecked_from_js_ref(val: &JsValue) -> &Self { val }
}

#[derive(Clone, Debug)]
pub struct JsError(JsValue);
impl JsError {
	pub fn new(s: &str) -> JsError { JsError(JsValue(Val::Error(s.into()))) }
}
impl<E: std::error::Error> From<E> for JsError {
	fn from(e: E) -> Self { JsError::new(&e.to_string()) }
}
impl From<JsError> for JsValue {
	fn from(e: JsError) -> Self { e.0 }
}

pub fn throw_str(s: &str) -> ! { panic!("JavaScript exception: {s}") }
pub fn throw_val(v: JsValue) -> ! { panic!("JavaScript exception: {v:?}") }

pub trait UnwrapThrowExt<T>: Sized {
	fn unwrap_throw(self) -> T { self.expect_throw("unwrap_throw") }
	fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
	fn expect_throw(self, message: &str) -> T { self.expect(message) }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
	fn expect_throw(self, message: &str) -> T { self.expect(message) }
}

pub mod closure {
	use crate::{JsValue, Val};
	/// Only of one argument, which is a value.
	pub struct Closure<T: ?Sized>(JsValue, std::marker::PhantomData<Box<T>>);
	impl Closure<dyn FnMut(JsValue)> {
		pub fn new(f: impl FnMut(JsValue) + 'static) -> Self {
			let f = std::cell::RefCell::new(f);
			Closure(JsValue(Val::Function(std::rc::Rc::new(move |_, a| { (f.borrow_mut())(a.first().cloned().unwrap_or_default()); Ok(JsValue::UNDEFINED) }))), std::marker::PhantomData)
		}
	}
	impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
		fn as_ref(&self) -> &JsValue { &self.0 }
	}
	impl<T: ?Sized> Closure<T> {
		pub fn forget(self) { std::mem::forget(self) }
		pub fn into_js_value(self) -> JsValue { self.0 }
	}
}

pub mod prelude {
	pub use crate::{closure::Closure, wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}
