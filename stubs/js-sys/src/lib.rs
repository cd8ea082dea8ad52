//! Native stand-in for `js-sys` (see the wasm-bindgen stand-in).
#![allow(clippy::all)]
use std::convert::Infallible;
use std::ops::Deref;
use wasm_bindgen::{Inner, JsCast, JsValue};

macro_rules! js_type {
    ($name:ident, $is:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $name {
            obj: JsValue,
        }
        impl Eq for $name {}
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.obj
            }
        }
        impl AsRef<$name> for $name {
            fn as_ref(&self) -> &$name {
                self
            }
        }
        impl From<$name> for JsValue {
            fn from(v: $name) -> JsValue {
                v.obj
            }
        }
        impl From<JsValue> for $name {
            fn from(obj: JsValue) -> $name {
                $name { obj }
            }
        }
        impl JsCast for $name {
            fn instanceof(val: &JsValue) -> bool {
                let f: fn(&JsValue) -> bool = $is;
                f(val)
            }
            fn unchecked_from_js(obj: JsValue) -> Self {
                $name { obj }
            }
            fn unchecked_from_js_ref(val: &JsValue) -> &Self {
                // repr(transparent)
                unsafe { &*(val as *const JsValue as *const $name) }
            }
        }
    };
}
js_type!(Object, |v| v.as_obj().is_some());
js_type!(Array, JsValue::is_array);
js_type!(Function, JsValue::is_function);
js_type!(JsString, JsValue::is_string);
js_type!(Number, |v| v.as_f64().is_some());
js_type!(Boolean, |v| v.as_bool().is_some());
js_type!(Error, |v| v.as_obj().is_some());

impl Deref for Object {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.obj
    }
}
macro_rules! sub_object {
    ($($n:ident)*) => {$(
        impl Deref for $n { type Target = Object; fn deref(&self) -> &Object { self.obj.unchecked_ref() } }
        impl AsRef<Object> for $n { fn as_ref(&self) -> &Object { self.obj.unchecked_ref() } }
        impl From<$n> for Object { fn from(v: $n) -> Object { Object { obj: v.obj } } }
    )*};
}
sub_object!(Array Function JsString Number Boolean Error);

fn array_index(key: &str) -> Option<u32> {
    let n: u32 = key.parse().ok()?;
    if n != u32::MAX && n.to_string() == key {
        Some(n)
    } else {
        None
    }
}

/// Own enumerable string-keyed properties in ECMAScript order.
fn own_entries(v: &JsValue) -> Vec<(String, JsValue)> {
    match &v.inner {
        Inner::Str(s) => s.chars().enumerate().map(|(i, c)| (i.to_string(), JsValue::from(c.to_string()))).collect(),
        Inner::Obj(o) => {
            let mut idx: Vec<(u32, String, JsValue)> = Vec::new();
            let mut rest = Vec::new();
            for (i, it) in o.items.lock().unwrap().iter().enumerate() {
                idx.push((i as u32, i.to_string(), it.clone()));
            }
            for (k, v) in o.props.lock().unwrap().iter() {
                match array_index(k) {
                    Some(n) => idx.push((n, k.clone(), v.clone())),
                    None => rest.push((k.clone(), v.clone())),
                }
            }
            idx.sort_by_key(|e| e.0);
            idx.into_iter().map(|(_, k, v)| (k, v)).chain(rest).collect()
        }
        _ => Vec::new(),
    }
}

fn type_error(msg: &str) -> JsValue {
    JsValue::native_object(vec![("name".into(), "TypeError".into()), ("message".into(), msg.into())])
}

impl Object {
    pub fn new() -> Object {
        Object { obj: JsValue::native_object(Vec::new()) }
    }
    pub fn entries(o: &Object) -> Array {
        Array { obj: JsValue::native_array(own_entries(&o.obj).into_iter().map(|(k, v)| JsValue::native_array(vec![k.into(), v])).collect()) }
    }
    pub fn keys(o: &Object) -> Array {
        Array { obj: JsValue::native_array(own_entries(&o.obj).into_iter().map(|(k, _)| k.into()).collect()) }
    }
    pub fn values(o: &Object) -> Array {
        Array { obj: JsValue::native_array(own_entries(&o.obj).into_iter().map(|(_, v)| v).collect()) }
    }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        match (a.as_f64(), b.as_f64()) {
            (Some(x), Some(y)) => (x.is_nan() && y.is_nan()) || (x == y && x.is_sign_negative() == y.is_sign_negative()),
            _ => a == b,
        }
    }
    pub fn try_from(val: &JsValue) -> Option<&Object> {
        if val.as_obj().is_some() {
            Some(val.unchecked_ref())
        } else {
            None
        }
    }
    pub fn assign(target: &Object, source: &Object) -> Object {
        for (k, v) in own_entries(&source.obj) {
            let _ = Reflect::set(&target.obj, &k.into(), &v);
        }
        target.clone()
    }
    pub fn get_own_property_names(o: &Object) -> Array {
        Object::keys(o)
    }
    pub fn from_entries(entries: &JsValue) -> Result<Object, JsValue> {
        let out = Object::new();
        for (_, e) in own_entries(entries) {
            let pair = own_entries(&e);
            let at = |k: usize| pair.get(k).map_or(JsValue::UNDEFINED, |p| p.1.clone());
            Reflect::set(&out.obj, &at(0), &at(1))?;
        }
        Ok(out)
    }
    pub fn has_own_property(&self, property: &JsValue) -> bool {
        let k = key_string(property);
        own_entries(&self.obj).iter().any(|(n, _)| *n == k)
    }
}
impl Default for Object {
    fn default() -> Self {
        Object::new()
    }
}

impl Array {
    pub fn new() -> Array {
        Array { obj: JsValue::native_array(Vec::new()) }
    }
    fn with<R>(&self, f: impl FnOnce(&mut Vec<JsValue>) -> R) -> R {
        match self.obj.as_obj() {
            Some(o) => f(&mut o.items.lock().unwrap()),
            None => f(&mut Vec::new()),
        }
    }
    pub fn get(&self, index: u32) -> JsValue {
        if let Inner::Str(_) = self.obj.inner {
            return own_entries(&self.obj).get(index as usize).map_or(JsValue::UNDEFINED, |e| e.1.clone());
        }
        self.with(|v| v.get(index as usize).cloned().unwrap_or(JsValue::UNDEFINED))
    }
    pub fn at(&self, index: i32) -> JsValue {
        let len = self.length() as i32;
        let i = if index < 0 { len + index } else { index };
        if i < 0 {
            JsValue::UNDEFINED
        } else {
            self.get(i as u32)
        }
    }
    pub fn set(&self, index: u32, value: JsValue) {
        self.with(|v| {
            while v.len() <= index as usize {
                v.push(JsValue::UNDEFINED);
            }
            v[index as usize] = value;
        });
    }
    pub fn push(&self, value: &JsValue) -> u32 {
        self.with(|v| {
            v.push(value.clone());
            v.len() as u32
        })
    }
    pub fn pop(&self) -> JsValue {
        self.with(|v| v.pop().unwrap_or(JsValue::UNDEFINED))
    }
    pub fn length(&self) -> u32 {
        self.with(|v| v.len() as u32)
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.with(|v| v.clone())
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
    pub fn from(v: &JsValue) -> Array {
        Array { obj: JsValue::native_array(own_entries(v).into_iter().map(|(_, v)| v).collect()) }
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.iter().enumerate() {
            f(v, i as u32, self.clone());
        }
    }
    pub fn includes(&self, value: &JsValue, from: i32) -> bool {
        self.iter().skip(from.max(0) as usize).any(|v| v == *value)
    }
    pub fn new_with_length(n: u32) -> Array {
        Array { obj: JsValue::native_array(vec![JsValue::UNDEFINED; n as usize]) }
    }
    pub fn shift(&self) -> JsValue {
        self.with(|v| if v.is_empty() { JsValue::UNDEFINED } else { v.remove(0) })
    }
    pub fn unshift(&self, value: &JsValue) -> u32 {
        self.with(|v| {
            v.insert(0, value.clone());
            v.len() as u32
        })
    }
    pub fn reverse(&self) -> Array {
        self.with(|v| v.reverse());
        self.clone()
    }
    pub fn concat(&self, other: &Array) -> Array {
        self.iter().chain(other.iter()).collect()
    }
    pub fn slice(&self, from: u32, to: u32) -> Array {
        self.iter().take(to as usize).skip(from as usize).collect()
    }
    pub fn index_of(&self, value: &JsValue, from: i32) -> i32 {
        self.iter().enumerate().skip(from.max(0) as usize).find(|(_, v)| v == value).map_or(-1, |(i, _)| i as i32)
    }
    pub fn join(&self, separator: &str) -> JsString {
        let parts: Vec<String> = self.iter().map(|v| if v.is_null_or_undefined() { String::new() } else { key_string(&v) }).collect();
        parts.join(separator).into()
    }
    pub fn map(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> JsValue) -> Array {
        self.iter().enumerate().map(|(i, v)| f(v, i as u32, self.clone())).collect()
    }
    pub fn filter(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> bool) -> Array {
        self.iter().enumerate().filter(|(i, v)| f(v.clone(), *i as u32, self.clone())).map(|(_, v)| v).collect()
    }
    pub fn find(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> bool) -> JsValue {
        self.iter().enumerate().find(|(i, v)| f(v.clone(), *i as u32, self.clone())).map_or(JsValue::UNDEFINED, |(_, v)| v)
    }
    pub fn some(&self, f: &mut dyn FnMut(JsValue) -> bool) -> bool {
        self.iter().any(f)
    }
    pub fn every(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> bool) -> bool {
        self.iter().enumerate().all(|(i, v)| f(v, i as u32, self.clone()))
    }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Array {
        Array { obj: JsValue::native_array(vec![a.clone(), b.clone(), c.clone()]) }
    }
    pub fn of1(a: &JsValue) -> Array {
        Array { obj: JsValue::native_array(vec![a.clone()]) }
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        Array { obj: JsValue::native_array(vec![a.clone(), b.clone()]) }
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl IntoIterator for &Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(iter: I) -> Array {
        Array { obj: JsValue::native_array(iter.into_iter().map(|v| v.as_ref().clone()).collect()) }
    }
}

impl Function {
    fn invoke(&self, this: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
        match self.obj.as_obj().and_then(|o| o.func.as_ref()) {
            Some(f) => f(this, args),
            None => Err(type_error("not a function")),
        }
    }
    pub fn call0(&self, this: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[])
    }
    pub fn call1(&self, this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[a.clone()])
    }
    pub fn call2(&self, this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[a.clone(), b.clone()])
    }
    pub fn call3(&self, this: &JsValue, a: &JsValue, b: &JsValue, c: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[a.clone(), b.clone(), c.clone()])
    }
    pub fn apply(&self, this: &JsValue, args: &Array) -> Result<JsValue, JsValue> {
        self.invoke(this, &args.to_vec())
    }
    /// Harness constructor.
    pub fn native(f: impl Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue> + Send + Sync + 'static) -> Function {
        Function { obj: JsValue::native_function(Box::new(f)) }
    }
}

fn key_string(key: &JsValue) -> String {
    match &key.inner {
        Inner::Str(s) => s.to_string(),
        Inner::Number(n) => n.to_string(),
        Inner::Undefined => "undefined".into(),
        Inner::Null => "null".into(),
        Inner::Bool(b) => b.to_string(),
        Inner::BigInt(n) => n.to_string(),
        Inner::Obj(_) => "[object Object]".into(),
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    /// `Reflect.get`: TypeError unless the target is an object; `undefined` for a missing property.
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        let o = target.as_obj().ok_or_else(|| type_error("Reflect.get called on non-object"))?;
        let k = key_string(key);
        if o.is_array && k == "length" {
            return Ok(JsValue::from(o.items.lock().unwrap().len()));
        }
        Ok(own_entries(target).into_iter().find(|(n, _)| *n == k).map_or(JsValue::UNDEFINED, |e| e.1))
    }
    pub fn get_u32(target: &JsValue, key: u32) -> Result<JsValue, JsValue> {
        get(target, &JsValue::from(key))
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        target.as_obj().ok_or_else(|| type_error("Reflect.has called on non-object"))?;
        let k = key_string(key);
        Ok(own_entries(target).iter().any(|(n, _)| *n == k))
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        let o = target.as_obj().ok_or_else(|| type_error("Reflect.set called on non-object"))?;
        let k = key_string(key);
        let mut props = o.props.lock().unwrap();
        match props.iter_mut().find(|(n, _)| *n == k) {
            Some(e) => e.1 = value.clone(),
            None => props.push((k, value.clone())),
        }
        Ok(true)
    }
    pub fn set_u32(target: &JsValue, key: u32, value: &JsValue) -> Result<bool, JsValue> {
        let o = target.as_obj().ok_or_else(|| type_error("Reflect.set called on non-object"))?;
        if o.is_array {
            target.unchecked_ref::<Array>().set(key, value.clone());
            return Ok(true);
        }
        set(target, &JsValue::from(key), value)
    }
    pub fn get_f64(target: &JsValue, key: f64) -> Result<JsValue, JsValue> {
        get(target, &JsValue::from(key))
    }
    pub fn delete_property(target: &Object, key: &JsValue) -> Result<bool, JsValue> {
        let k = key_string(key);
        if let Some(o) = target.as_obj() {
            o.props.lock().unwrap().retain(|(n, _)| *n != k);
        }
        Ok(true)
    }
    pub fn apply(f: &Function, this: &JsValue, args: &Array) -> Result<JsValue, JsValue> {
        f.apply(this, args)
    }
    pub fn own_keys(target: &JsValue) -> Result<Array, JsValue> {
        target.as_obj().ok_or_else(|| type_error("Reflect.ownKeys called on non-object"))?;
        Ok(Object::keys(target.unchecked_ref()))
    }
}

impl From<&str> for JsString {
    fn from(s: &str) -> JsString {
        JsString { obj: s.into() }
    }
}
impl From<String> for JsString {
    fn from(s: String) -> JsString {
        JsString { obj: s.into() }
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        s.obj.as_string().unwrap_or_default()
    }
}
impl From<f64> for Number {
    fn from(n: f64) -> Number {
        Number { obj: n.into() }
    }
}
impl Number {
    pub fn value_of(&self) -> f64 {
        self.obj.as_f64().unwrap_or(f64::NAN)
    }
    pub fn is_finite(v: &JsValue) -> bool {
        v.as_f64().is_some_and(f64::is_finite)
    }
    pub fn is_nan(v: &JsValue) -> bool {
        v.as_f64().is_some_and(f64::is_nan)
    }
    pub fn is_integer(v: &JsValue) -> bool {
        v.as_f64().is_some_and(|n| n.is_finite() && n.fract() == 0.0)
    }
    pub fn is_safe_integer(v: &JsValue) -> bool {
        Number::is_integer(v) && v.as_f64().is_some_and(|n| n.abs() <= 9_007_199_254_740_991.0)
    }
    pub fn parse_float(s: &str) -> f64 {
        s.trim().parse().unwrap_or(f64::NAN)
    }
}
impl JsString {
    pub fn length(&self) -> u32 {
        self.obj.as_string().map_or(0, |s| s.encode_utf16().count() as u32)
    }
    pub fn try_from(v: &JsValue) -> Option<&JsString> {
        if v.is_string() {
            Some(v.unchecked_ref())
        } else {
            None
        }
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, other: &str) -> bool {
        self.obj.as_string().as_deref() == Some(other)
    }
}
impl<'a> PartialEq<&'a str> for JsString {
    fn eq(&self, other: &&'a str) -> bool {
        self == *other
    }
}
impl Boolean {
    pub fn value_of(&self) -> bool {
        self.obj.as_bool().unwrap_or(false)
    }
}
impl From<bool> for Boolean {
    fn from(b: bool) -> Boolean {
        Boolean { obj: b.into() }
    }
}
pub fn is_finite(v: &JsValue) -> bool {
    Number::is_finite(v)
}
pub fn try_iter(v: &JsValue) -> Result<Option<std::vec::IntoIter<Result<JsValue, JsValue>>>, JsValue> {
    Ok(if v.is_array() || v.is_string() { Some(own_entries(v).into_iter().map(|(_, v)| Ok(v)).collect::<Vec<_>>().into_iter()) } else { None })
}
impl Error {
    pub fn message(&self) -> JsString {
        JsString { obj: Reflect::get(&self.obj, &"message".into()).unwrap_or_default() }
    }
    pub fn new(msg: &str) -> Error {
        Error { obj: JsValue::native_object(vec![("message".into(), msg.into())]) }
    }
}
#[allow(dead_code)]
type _Unused = Infallible;
