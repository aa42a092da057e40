//! Stand-in for wasm-bindgen that runs natively: values, casts and closures.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::{JsCast, JsValue, wasm_bindgen};
}

thread_local! {
    /// What the code sent to imported functions (the log of the page).
    pub static IMPORTED: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    /// Errors that the page would have shown in its console.
    pub static ERRORS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

pub fn imported(args: &[&str]) {
    IMPORTED.with(|l| l.borrow_mut().push(args.join(" ")));
}

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(Rc<str>),
    Object(Rc<dyn Any>),
}

impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;

    pub const fn null() -> Self {
        JsValue::Null
    }

    pub const fn undefined() -> Self {
        JsValue::Undefined
    }

    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue::Str(Rc::from(s))
    }

    pub fn from_f64(n: f64) -> Self {
        JsValue::Number(n)
    }

    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }

    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(n) => Some(*n),
            _ => None,
        }
    }

    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }

    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }

    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }

    pub fn downcast<T: 'static>(&self) -> Option<&T> {
        match self {
            JsValue::Object(o) => o.downcast_ref::<T>(),
            _ => None,
        }
    }
}

impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (JsValue::Undefined, JsValue::Undefined) | (JsValue::Null, JsValue::Null) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => a == b,
            (JsValue::Number(a), JsValue::Number(b)) => a == b,
            (JsValue::Str(a), JsValue::Str(b)) => a == b,
            (JsValue::Object(a), JsValue::Object(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Null => write!(f, "JsValue(null)"),
            JsValue::Bool(b) => write!(f, "JsValue({})", b),
            JsValue::Number(n) => write!(f, "JsValue({})", n),
            JsValue::Str(s) => write!(f, "JsValue({:?})", s),
            JsValue::Object(_) => write!(f, "JsValue(Object)"),
        }
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}

impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::from_str(&s)
    }
}

impl From<f64> for JsValue {
    fn from(n: f64) -> Self {
        JsValue::Number(n)
    }
}

impl From<i32> for JsValue {
    fn from(n: i32) -> Self {
        JsValue::Number(f64::from(n))
    }
}

impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue::Bool(b)
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// Casts among the types of the page, all of which are `repr(transparent)` over `JsValue`.
pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;

    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }

    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }

    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }

    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }

    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }

    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if T::instanceof(self.as_ref()) { Some(self.unchecked_ref()) } else { None }
    }

    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) { Ok(self.unchecked_into()) } else { Err(self) }
    }
}

impl JsCast for JsValue {
    fn instanceof(_val: &JsValue) -> bool {
        true
    }

    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }

    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

/// What a callback can take as its argument.
pub trait FromJs {
    fn from_js(v: JsValue) -> Self;
}

impl FromJs for JsValue {
    fn from_js(v: JsValue) -> Self {
        v
    }
}

impl FromJs for f64 {
    fn from_js(v: JsValue) -> Self {
        v.as_f64().expect("not a number")
    }
}

/// Declares a type of the page whose objects carry an `$inner`.
#[macro_export]
macro_rules! js_class {
    ($name:ident, $inner:ty) => {
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $name($crate::JsValue);

        #[allow(dead_code)]
        impl $name {
            pub fn of(inner: $inner) -> Self {
                Self($crate::JsValue::Object(std::rc::Rc::new(inner)))
            }

            pub fn inner(&self) -> &$inner {
                self.0.downcast::<$inner>().expect(concat!("not a ", stringify!($name)))
            }
        }

        impl AsRef<$crate::JsValue> for $name {
            fn as_ref(&self) -> &$crate::JsValue {
                &self.0
            }
        }

        impl std::ops::Deref for $name {
            type Target = $crate::JsValue;

            fn deref(&self) -> &$crate::JsValue {
                &self.0
            }
        }

        impl From<$name> for $crate::JsValue {
            fn from(v: $name) -> Self {
                v.0
            }
        }

        impl $crate::FromJs for $name {
            fn from_js(v: $crate::JsValue) -> Self {
                Self(v)
            }
        }

        impl $crate::JsCast for $name {
            fn instanceof(val: &$crate::JsValue) -> bool {
                val.downcast::<$inner>().is_some()
            }

            fn unchecked_from_js(val: $crate::JsValue) -> Self {
                Self(val)
            }

            fn unchecked_from_js_ref(val: &$crate::JsValue) -> &Self {
                // Sound because the type is transparent.
                unsafe { &*(val as *const $crate::JsValue as *const Self) }
            }
        }
    };
}

/// A closure as the page sees it.
pub struct Callback {
    pub alive: Cell<bool>,
    f: RefCell<Box<dyn FnMut(JsValue)>>,
}

impl Callback {
    /// Calls the closure unless its owner already dropped it, which a page reports as an error.
    pub fn call(&self, arg: JsValue) {
        if !self.alive.get() {
            ERRORS.with(|e| e.borrow_mut().push("closure invoked after being dropped".to_owned()));
            return;
        }
        (self.f.borrow_mut())(arg);
    }
}

pub mod closure {
    use super::*;
    use std::marker::PhantomData;

    pub trait WasmClosure {
        fn boxed(b: Box<Self>) -> Box<dyn FnMut(JsValue)>;
    }

    impl WasmClosure for dyn FnMut() {
        fn boxed(mut b: Box<Self>) -> Box<dyn FnMut(JsValue)> {
            Box::new(move |_| b())
        }
    }

    impl WasmClosure for dyn Fn() {
        fn boxed(b: Box<Self>) -> Box<dyn FnMut(JsValue)> {
            Box::new(move |_| b())
        }
    }

    impl<A: FromJs + 'static> WasmClosure for dyn FnMut(A) {
        fn boxed(mut b: Box<Self>) -> Box<dyn FnMut(JsValue)> {
            Box::new(move |v| b(A::from_js(v)))
        }
    }

    impl<A: FromJs + 'static> WasmClosure for dyn Fn(A) {
        fn boxed(b: Box<Self>) -> Box<dyn FnMut(JsValue)> {
            Box::new(move |v| b(A::from_js(v)))
        }
    }

    pub trait IntoWasmClosure<T: ?Sized> {
        fn into_box(self) -> Box<T>;
    }

    impl<F: FnMut() + 'static> IntoWasmClosure<dyn FnMut()> for F {
        fn into_box(self) -> Box<dyn FnMut()> {
            Box::new(self)
        }
    }

    impl<F: Fn() + 'static> IntoWasmClosure<dyn Fn()> for F {
        fn into_box(self) -> Box<dyn Fn()> {
            Box::new(self)
        }
    }

    impl<A: FromJs + 'static, F: FnMut(A) + 'static> IntoWasmClosure<dyn FnMut(A)> for F {
        fn into_box(self) -> Box<dyn FnMut(A)> {
            Box::new(self)
        }
    }

    impl<A: FromJs + 'static, F: Fn(A) + 'static> IntoWasmClosure<dyn Fn(A)> for F {
        fn into_box(self) -> Box<dyn Fn(A)> {
            Box::new(self)
        }
    }

    pub struct Closure<T: ?Sized> {
        js: JsValue,
        cb: Rc<Callback>,
        _t: PhantomData<T>,
    }

    impl<T: WasmClosure + ?Sized + 'static> Closure<T> {
        pub fn wrap(b: Box<T>) -> Self {
            let cb = Rc::new(Callback { alive: Cell::new(true), f: RefCell::new(T::boxed(b)) });
            Self { js: JsValue::Object(cb.clone()), cb, _t: PhantomData }
        }

        #[allow(clippy::should_implement_trait)]
        pub fn new<F: IntoWasmClosure<T>>(f: F) -> Self {
            Self::wrap(f.into_box())
        }

        pub fn forget(self) {
            std::mem::forget(self);
        }

        pub fn into_js_value(self) -> JsValue {
            let js = self.js.clone();
            self.forget();
            js
        }
    }

    impl Closure<dyn FnMut()> {
        pub fn once<F: FnOnce() + 'static>(f: F) -> Self {
            let mut f = Some(f);
            Self::wrap(Box::new(move || {
                if let Some(f) = f.take() {
                    f()
                }
            }))
        }
    }

    impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
        fn as_ref(&self) -> &JsValue {
            &self.js
        }
    }

    impl<T: ?Sized> Drop for Closure<T> {
        fn drop(&mut self) {
            self.cb.alive.set(false);
        }
    }
}

/// Bytes of an image.
#[derive(Clone, Debug, PartialEq)]
pub struct Clamped<T>(pub T);

impl<T> Deref for Clamped<T> {
    type Target = T;

    fn deref(&self) -> &T {
        &self.0
    }
}

impl<T> DerefMut for Clamped<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}

impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }

    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }

    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
