//! Stand-in for js-sys that runs natively.

use std::cell::Cell;
use wasm_bindgen::{Callback, JsCast, JsValue, js_class};

js_class!(Function, Callback);
js_class!(Array, Vec<JsValue>);

impl Default for Array {
    fn default() -> Self {
        Self::new()
    }
}

impl Array {
    pub fn new() -> Self {
        Self::of(vec![])
    }
}

/// Any object.
#[derive(Clone, Debug, PartialEq)]
#[repr(transparent)]
pub struct Object(JsValue);

impl AsRef<JsValue> for Object {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}

impl std::ops::Deref for Object {
    type Target = JsValue;

    fn deref(&self) -> &JsValue {
        &self.0
    }
}

impl From<Object> for JsValue {
    fn from(v: Object) -> Self {
        v.0
    }
}

impl JsCast for Object {
    fn instanceof(val: &JsValue) -> bool {
        matches!(val, JsValue::Object(_))
    }

    fn unchecked_from_js(val: JsValue) -> Self {
        Self(val)
    }

    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        unsafe { &*(val as *const JsValue as *const Self) }
    }
}

thread_local! {
    /// Milliseconds since the Unix epoch at which the page was loaded.
    pub static EPOCH_MS: Cell<f64> = const { Cell::new(0.0) };
    /// Milliseconds since the page was loaded.
    pub static NOW_MS: Cell<f64> = const { Cell::new(0.0) };
    /// How much every look at a clock takes, in milliseconds.
    pub static STEP_MS: Cell<f64> = const { Cell::new(0.0) };
    /// What `getTimezoneOffset` says: minutes that UTC is ahead of the local time.
    pub static TZ_MIN: Cell<f64> = const { Cell::new(0.0) };
}

/// Looks at the clock of the page.
pub fn clock() -> f64 {
    let now = NOW_MS.get() + STEP_MS.get();
    NOW_MS.set(now);
    now
}

pub struct Date(f64);

impl Date {
    pub fn new_0() -> Self {
        Self(Self::now())
    }

    pub fn now() -> f64 {
        (EPOCH_MS.get() + clock()).trunc()
    }

    pub fn get_time(&self) -> f64 {
        self.0
    }

    pub fn get_timezone_offset(&self) -> f64 {
        TZ_MIN.get()
    }
}
