//! Native stand-in for `wasm-bindgen`: a small ECMAScript value heap so that the wasm-facing code of
//! the crate under test runs, unmodified, on the host. Value semantics follow ECMA-262 (strict
//! equality, `typeof`, property order, TypeError on property access of primitives).
#![allow(clippy::all)]
use std::fmt;
use std::sync::{Arc, Mutex};

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}

pub type NativeFn = dyn Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue> + Send + Sync;

pub struct Obj {
    pub is_array: bool,
    pub props: Mutex<Vec<(String, JsValue)>>,
    pub items: Mutex<Vec<JsValue>>,
    pub func: Option<Box<NativeFn>>,
}

#[derive(Clone)]
pub enum Inner {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    BigInt(i128),
    Str(Arc<str>),
    Obj(Arc<Obj>),
}

#[repr(transparent)]
pub struct JsValue {
    pub inner: Inner,
}

impl Clone for JsValue {
    fn clone(&self) -> Self {
        JsValue { inner: self.inner.clone() }
    }
}

impl Default for JsValue {
    fn default() -> Self {
        JsValue::UNDEFINED
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.inner {
            Inner::Undefined => write!(f, "JsValue(undefined)"),
            Inner::Null => write!(f, "JsValue(null)"),
            Inner::Bool(b) => write!(f, "JsValue({b})"),
            Inner::Number(n) => write!(f, "JsValue({n})"),
            Inner::BigInt(n) => write!(f, "JsValue({n}n)"),
            Inner::Str(s) => write!(f, "JsValue({s:?})"),
            Inner::Obj(o) if o.func.is_some() => write!(f, "JsValue(Function)"),
            Inner::Obj(o) if o.is_array => write!(f, "JsValue(Array)"),
            Inner::Obj(_) => write!(f, "JsValue(Object)"),
        }
    }
}

impl JsValue {
    pub const NULL: JsValue = JsValue { inner: Inner::Null };
    pub const UNDEFINED: JsValue = JsValue { inner: Inner::Undefined };
    pub const TRUE: JsValue = JsValue { inner: Inner::Bool(true) };
    pub const FALSE: JsValue = JsValue { inner: Inner::Bool(false) };

    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue { inner: Inner::Str(Arc::from(s)) }
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue { inner: Inner::Number(n) }
    }
    pub const fn from_bool(b: bool) -> JsValue {
        JsValue { inner: Inner::Bool(b) }
    }
    pub const fn undefined() -> JsValue {
        JsValue::UNDEFINED
    }
    pub const fn null() -> JsValue {
        JsValue::NULL
    }
    /// Native constructors used by the harness and by the js-sys stand-in.
    pub fn native_object(props: Vec<(String, JsValue)>) -> JsValue {
        JsValue { inner: Inner::Obj(Arc::new(Obj { is_array: false, props: Mutex::new(props), items: Mutex::new(Vec::new()), func: None })) }
    }
    pub fn native_array(items: Vec<JsValue>) -> JsValue {
        JsValue { inner: Inner::Obj(Arc::new(Obj { is_array: true, props: Mutex::new(Vec::new()), items: Mutex::new(items), func: None })) }
    }
    pub fn native_function(f: Box<NativeFn>) -> JsValue {
        JsValue { inner: Inner::Obj(Arc::new(Obj { is_array: false, props: Mutex::new(Vec::new()), items: Mutex::new(Vec::new()), func: Some(f) })) }
    }
    pub fn as_obj(&self) -> Option<&Arc<Obj>> {
        match &self.inner {
            Inner::Obj(o) => Some(o),
            _ => None,
        }
    }

    pub fn as_f64(&self) -> Option<f64> {
        match self.inner {
            Inner::Number(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.inner {
            Inner::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.inner {
            Inner::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.inner, Inner::Str(_))
    }
    pub fn is_null(&self) -> bool {
        matches!(self.inner, Inner::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.inner, Inner::Undefined)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_symbol(&self) -> bool {
        false
    }
    pub fn is_object(&self) -> bool {
        matches!(&self.inner, Inner::Obj(o) if o.func.is_none())
    }
    pub fn is_array(&self) -> bool {
        matches!(&self.inner, Inner::Obj(o) if o.is_array)
    }
    pub fn is_function(&self) -> bool {
        matches!(&self.inner, Inner::Obj(o) if o.func.is_some())
    }
    pub fn is_bigint(&self) -> bool {
        matches!(self.inner, Inner::BigInt(_))
    }
    pub fn js_typeof(&self) -> JsValue {
        JsValue::from_str(match &self.inner {
            Inner::Undefined => "undefined",
            Inner::Null => "object",
            Inner::Bool(_) => "boolean",
            Inner::Number(_) => "number",
            Inner::BigInt(_) => "bigint",
            Inner::Str(_) => "string",
            Inner::Obj(o) if o.func.is_some() => "function",
            Inner::Obj(_) => "object",
        })
    }
    pub fn is_truthy(&self) -> bool {
        match &self.inner {
            Inner::Undefined | Inner::Null => false,
            Inner::Bool(b) => *b,
            Inner::Number(n) => *n != 0.0 && !n.is_nan(),
            Inner::BigInt(n) => *n != 0,
            Inner::Str(s) => !s.is_empty(),
            Inner::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    fn to_number(&self) -> f64 {
        match &self.inner {
            Inner::Undefined => f64::NAN,
            Inner::Null => 0.0,
            Inner::Bool(b) => {
                if *b {
                    1.0
                } else {
                    0.0
                }
            }
            Inner::Number(n) => *n,
            Inner::BigInt(n) => *n as f64,
            Inner::Str(s) => {
                let t = s.trim();
                if t.is_empty() {
                    0.0
                } else {
                    t.parse().unwrap_or(f64::NAN)
                }
            }
            Inner::Obj(_) => f64::NAN,
        }
    }
    pub fn unchecked_into_f64(&self) -> f64 {
        self.to_number()
    }
    fn cmp_js(&self, other: &Self) -> Option<std::cmp::Ordering> {
        match (&self.inner, &other.inner) {
            (Inner::Str(a), Inner::Str(b)) => {
                Some(a.encode_utf16().collect::<Vec<_>>().cmp(&b.encode_utf16().collect::<Vec<_>>()))
            }
            _ => self.to_number().partial_cmp(&other.to_number()),
        }
    }
    pub fn lt(&self, other: &Self) -> bool {
        self.cmp_js(other) == Some(std::cmp::Ordering::Less)
    }
    pub fn le(&self, other: &Self) -> bool {
        matches!(self.cmp_js(other), Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal))
    }
    pub fn ge(&self, other: &Self) -> bool {
        matches!(self.cmp_js(other), Some(std::cmp::Ordering::Greater | std::cmp::Ordering::Equal))
    }
    pub fn gt(&self, other: &Self) -> bool {
        self.cmp_js(other) == Some(std::cmp::Ordering::Greater)
    }
    pub fn loose_eq(&self, other: &Self) -> bool {
        match (&self.inner, &other.inner) {
            (Inner::Undefined | Inner::Null, Inner::Undefined | Inner::Null) => true,
            (Inner::Undefined | Inner::Null, _) | (_, Inner::Undefined | Inner::Null) => false,
            (Inner::Str(a), Inner::Str(b)) => a == b,
            (Inner::Obj(a), Inner::Obj(b)) => Arc::ptr_eq(a, b),
            (Inner::Obj(_), _) | (_, Inner::Obj(_)) => false,
            _ => self.to_number() == other.to_number(),
        }
    }
}

impl PartialEq for JsValue {
    /// `===`
    fn eq(&self, other: &Self) -> bool {
        match (&self.inner, &other.inner) {
            (Inner::Undefined, Inner::Undefined) | (Inner::Null, Inner::Null) => true,
            (Inner::Bool(a), Inner::Bool(b)) => a == b,
            (Inner::Number(a), Inner::Number(b)) => a == b,
            (Inner::BigInt(a), Inner::BigInt(b)) => a == b,
            (Inner::Str(a), Inner::Str(b)) => a == b,
            (Inner::Obj(a), Inner::Obj(b)) => Arc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, other: &bool) -> bool {
        self.as_bool() == Some(*other)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, other: &str) -> bool {
        matches!(&self.inner, Inner::Str(s) if &**s == other)
    }
}
impl<'a> PartialEq<&'a str> for JsValue {
    fn eq(&self, other: &&'a str) -> bool {
        self == *other
    }
}
impl PartialEq<String> for JsValue {
    fn eq(&self, other: &String) -> bool {
        self == other.as_str()
    }
}
impl<'a> PartialEq<&'a String> for JsValue {
    fn eq(&self, other: &&'a String) -> bool {
        self == other.as_str()
    }
}

impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(s: &'a String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::from_bool(b)
    }
}
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(o: Option<T>) -> JsValue {
        match o {
            Some(v) => v.into(),
            None => JsValue::UNDEFINED,
        }
    }
}
impl<'a, T> From<&'a T> for JsValue
where
    T: JsCast,
{
    fn from(o: &'a T) -> JsValue {
        o.as_ref().clone()
    }
}
impl<T> From<Vec<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(v: Vec<T>) -> JsValue {
        JsValue::native_array(v.into_iter().map(JsValue::from).collect())
    }
}
macro_rules! nums {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue::from_f64(n as f64) } }
        impl PartialEq<$t> for JsValue { fn eq(&self, o: &$t) -> bool { self.as_f64() == Some(*o as f64) } }
    )*};
}
nums!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);
macro_rules! bigs {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue { inner: Inner::BigInt(n as i128) } } }
        impl PartialEq<$t> for JsValue { fn eq(&self, o: &$t) -> bool { matches!(self.inner, Inner::BigInt(n) if n == *o as i128) } }
    )*};
}
bigs!(i64 u64 i128);
impl TryFrom<JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<f64, JsValue> {
        f64::try_from(&v)
    }
}
impl TryFrom<&JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: &JsValue) -> Result<f64, JsValue> {
        Ok(v.to_number())
    }
}
impl TryFrom<JsValue> for String {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<String, JsValue> {
        v.as_string().ok_or(v)
    }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

#[derive(Clone, Debug)]
pub struct JsError {
    value: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError { value: JsValue::native_object(vec![("message".into(), s.into())]) }
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        e.value
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError::new(&e.to_string())
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("{:?}", v)
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw failed")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub mod closure {
    pub struct Closure<T: ?Sized> {
        _p: std::marker::PhantomData<Box<T>>,
    }
}

#[derive(Copy, Clone, PartialEq, Debug, Eq)]
pub struct Clamped<T>(pub T);
