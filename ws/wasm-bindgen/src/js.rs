use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::{
    any::Any,
    cell::{Cell, RefCell},
    fmt,
    future::Future,
    ops::Deref,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

pub type Func = Rc<dyn Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue>>;

enum Val {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Array(RefCell<Vec<JsValue>>),
    Object(RefCell<Vec<(String, JsValue)>>),
    Error { name: RefCell<String>, message: String },
    Func(Func),
    Promise(Rc<State>),
    /// An instance of an exported class.
    Exported(RefCell<Option<Box<dyn Any>>>),
}

#[derive(Default)]
struct State {
    done: RefCell<Option<Result<JsValue, JsValue>>>,
    /// Attempts to settle it.
    settled: Cell<usize>,
}

#[derive(Clone)]
pub struct JsValue(Rc<Val>);

fn v(x: Val) -> JsValue {
    JsValue(Rc::new(x))
}

/// A number the way JavaScript writes it.
fn number(x: f64) -> Option<String> {
    if !x.is_finite() {
        return None;
    }
    if x == 0.0 {
        return Some("0".into());
    }
    if x == x.trunc() && x.abs() < 1e21 {
        return Some(format!("{x:.0}"));
    }
    if x.abs() >= 1e-6 && x.abs() < 1e21 {
        return Some(format!("{x}"));
    }
    Some(format!("{x:e}"))
}

impl JsValue {
    pub const UNDEFINED_TEXT: &'static str = "undefined";
    pub fn undefined() -> JsValue {
        v(Val::Undefined)
    }
    pub fn null() -> JsValue {
        v(Val::Null)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        v(Val::Str(s.into()))
    }
    pub fn from_f64(x: f64) -> JsValue {
        v(Val::Num(x))
    }
    pub fn from_bool(x: bool) -> JsValue {
        v(Val::Bool(x))
    }
    pub fn exported(x: Box<dyn Any>) -> JsValue {
        v(Val::Exported(RefCell::new(Some(x))))
    }
    /// The instance of an exported class, taken out of the value.
    pub fn take_exported<T: 'static>(&self) -> Option<T> {
        match &*self.0 {
            Val::Exported(x) => {
                let mut x = x.borrow_mut();
                if x.as_ref()?.is::<T>() {
                    return x.take()?.downcast().ok().map(|b| *b);
                }
                None
            }
            _ => None,
        }
    }
    pub fn func(f: impl Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue> + 'static) -> JsValue {
        v(Val::Func(Rc::new(f)))
    }
    pub fn object(m: Vec<(&str, JsValue)>) -> JsValue {
        v(Val::Object(RefCell::new(m.into_iter().map(|(k, x)| (k.to_string(), x)).collect())))
    }
    pub fn array(m: Vec<JsValue>) -> JsValue {
        v(Val::Array(RefCell::new(m)))
    }
    pub fn get(&self, name: &str) -> JsValue {
        match &*self.0 {
            Val::Object(m) => m.borrow().iter().find(|x| x.0 == name).map(|x| x.1.clone()).unwrap_or_else(JsValue::undefined),
            _ => JsValue::undefined(),
        }
    }
    pub fn set(&self, name: &str, x: JsValue) {
        if let Val::Object(m) = &*self.0 {
            let mut m = m.borrow_mut();
            m.retain(|y| y.0 != name);
            m.push((name.to_string(), x));
        }
    }
    /// JSON.parse
    pub fn parse(s: &str) -> Option<JsValue> {
        fn conv(x: Value) -> JsValue {
            match x {
                Value::Null => JsValue::null(),
                Value::Bool(b) => JsValue::from_bool(b),
                Value::Number(n) => JsValue::from_f64(n.as_f64().unwrap_or(f64::NAN)),
                Value::String(s) => v(Val::Str(s)),
                Value::Array(a) => JsValue::array(a.into_iter().map(conv).collect()),
                Value::Object(m) => v(Val::Object(RefCell::new(m.into_iter().map(|(k, x)| (k, conv(x))).collect()))),
            }
        }
        serde_json::from_str(s).ok().map(conv)
    }
    /// JSON.stringify
    pub fn stringify(&self) -> Option<String> {
        Some(match &*self.0 {
            Val::Undefined | Val::Func(_) => return None,
            Val::Null => "null".into(),
            Val::Bool(b) => b.to_string(),
            Val::Num(x) => number(*x).unwrap_or_else(|| "null".into()),
            Val::Str(s) => Value::String(s.clone()).to_string(),
            Val::Array(a) => {
                let a: Vec<String> = a.borrow().iter().map(|x| x.stringify().unwrap_or_else(|| "null".into())).collect();
                format!("[{}]", a.join(","))
            }
            Val::Object(m) => {
                let m: Vec<String> = m.borrow().iter().filter_map(|(k, x)| Some(format!("{}:{}", Value::String(k.clone()), x.stringify()?))).collect();
                format!("{{{}}}", m.join(","))
            }
            Val::Error { .. } | Val::Promise(_) => "{}".into(),
            Val::Exported(_) => "{\"__wbg_ptr\":1114120}".into(),
        })
    }
    pub fn from_serde<T: Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(JsValue::parse(&s).expect("what serde_json wrote is JSON"))
    }
    pub fn into_serde<T: DeserializeOwned>(&self) -> serde_json::Result<T> {
        serde_json::from_str(&self.stringify().unwrap_or_else(|| "null".into()))
    }
    pub fn as_string(&self) -> Option<String> {
        match &*self.0 {
            Val::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &*self.0 {
            Val::Num(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &*self.0 {
            Val::Bool(x) => Some(*x),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(&*self.0, Val::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(&*self.0, Val::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(&*self.0, Val::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(&*self.0, Val::Object(_) | Val::Array(_) | Val::Error { .. } | Val::Promise(_) | Val::Exported(_) | Val::Null)
    }
    /// name and message of an Error instance
    pub fn error_parts(&self) -> Option<(String, String)> {
        match &*self.0 {
            Val::Error { name, message } => Some((name.borrow().clone(), message.clone())),
            _ => None,
        }
    }
    /// Elements of an array.
    pub fn elements(&self) -> Option<Vec<JsValue>> {
        match &*self.0 {
            Val::Array(a) => Some(a.borrow().clone()),
            _ => None,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &*self.0 {
            Val::Error { name, message } => write!(f, "JsValue({}: {})", name.borrow(), message),
            Val::Func(_) => write!(f, "JsValue(Function)"),
            Val::Promise(_) => write!(f, "JsValue(Promise)"),
            Val::Undefined => write!(f, "JsValue(undefined)"),
            _ => write!(f, "JsValue({})", self.stringify().unwrap_or_default()),
        }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        JsValue::undefined()
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&*self.0, &*o.0) {
            (Val::Undefined, Val::Undefined) | (Val::Null, Val::Null) => true,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Num(a), Val::Num(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            _ => Rc::ptr_eq(&self.0, &o.0),
        }
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

macro_rules! from {
    ($($t:ty => |$x:ident| $e:expr),* $(,)?) => { $(impl From<$t> for JsValue { fn from($x: $t) -> JsValue { $e } })* };
}
from! {
    &str => |x| JsValue::from_str(x),
    String => |x| v(Val::Str(x)),
    &String => |x| JsValue::from_str(x),
    bool => |x| JsValue::from_bool(x),
    f64 => |x| JsValue::from_f64(x),
    f32 => |x| JsValue::from_f64(x as f64),
    u8 => |x| JsValue::from_f64(x as f64),
    u16 => |x| JsValue::from_f64(x as f64),
    u32 => |x| JsValue::from_f64(x as f64),
    i32 => |x| JsValue::from_f64(x as f64),
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> JsValue {
        x.map(Into::into).unwrap_or_else(JsValue::undefined)
    }
}

/// How arguments reach a JavaScript function.
pub trait IntoJs {
    fn into_js(self) -> JsValue;
}
impl<T: Into<JsValue>> IntoJs for T {
    fn into_js(self) -> JsValue {
        self.into()
    }
}

/// # Safety
/// Implementors are transparent views of a value.
pub unsafe trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(x: &JsValue) -> bool
    where
        Self: Sized;
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        let me: &JsValue = self.as_ref();
        T::instanceof(me).then(|| unsafe { &*(me as *const JsValue as *const T) })
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) {
            return Ok(self.unchecked_into());
        }
        Err(self)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        let x: JsValue = self.into();
        let y = unsafe { std::mem::transmute_copy(&x) };
        std::mem::forget(x);
        y
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        let me: &JsValue = self.as_ref();
        unsafe { &*(me as *const JsValue as *const T) }
    }
}
unsafe impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

macro_rules! class {
    ($n:ident, $p:pat) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $n(JsValue);
        impl Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$n> for JsValue {
            fn from(x: $n) -> JsValue {
                x.0
            }
        }
        impl From<JsValue> for $n {
            fn from(x: JsValue) -> $n {
                $n(x)
            }
        }
        unsafe impl JsCast for $n {
            fn instanceof(x: &JsValue) -> bool {
                matches!(&*x.0, $p)
            }
        }
    };
}
class!(Array, Val::Array(_));
class!(JsString, Val::Str(_));
class!(Error, Val::Error { .. });
class!(Promise, Val::Promise(_));

impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        Array(JsValue::array(vec![]))
    }
    pub fn new_with_length(n: u32) -> Array {
        Array(JsValue::array(vec![JsValue::undefined(); n as usize]))
    }
    fn cells(&self) -> &RefCell<Vec<JsValue>> {
        match &*self.0 .0 {
            Val::Array(a) => a,
            _ => panic!("not an array"),
        }
    }
    pub fn set(&self, i: u32, x: JsValue) {
        let mut a = self.cells().borrow_mut();
        while a.len() <= i as usize {
            a.push(JsValue::undefined())
        }
        a[i as usize] = x;
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.cells().borrow().get(i as usize).cloned().unwrap_or_else(JsValue::undefined)
    }
    pub fn push(&self, x: &JsValue) -> u32 {
        self.cells().borrow_mut().push(x.clone());
        self.length()
    }
    pub fn length(&self) -> u32 {
        self.cells().borrow().len() as u32
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.cells().borrow().clone()
    }
    pub fn is_array(x: &JsValue) -> bool {
        Array::instanceof(x)
    }
    pub fn of1(a: &JsValue) -> Array {
        [a].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a, b].into_iter().collect()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Array {
        Array(JsValue::array(i.into_iter().map(|x| x.as_ref().clone()).collect()))
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<I: IntoIterator<Item = A>>(&mut self, i: I) {
        for x in i {
            self.push(x.as_ref());
        }
    }
}
impl JsString {
    pub fn length(&self) -> u32 {
        self.0.as_string().unwrap_or_default().encode_utf16().count() as u32
    }
}
impl From<&JsString> for String {
    fn from(x: &JsString) -> String {
        x.0.as_string().unwrap_or_default()
    }
}
impl From<JsString> for String {
    fn from(x: JsString) -> String {
        x.0.as_string().unwrap_or_default()
    }
}
impl From<&str> for JsString {
    fn from(x: &str) -> JsString {
        JsString(JsValue::from_str(x))
    }
}
impl Error {
    pub fn new(m: &str) -> Error {
        Error(v(Val::Error { name: RefCell::new("Error".into()), message: m.into() }))
    }
    fn parts(&self) -> (&RefCell<String>, &str) {
        match &*self.0 .0 {
            Val::Error { name, message } => (name, message),
            _ => panic!("not an Error"),
        }
    }
    pub fn set_name(&self, n: &str) {
        *self.parts().0.borrow_mut() = n.into();
    }
    pub fn name(&self) -> JsString {
        JsString::from(&**self.parts().0.borrow())
    }
    pub fn message(&self) -> JsString {
        JsString::from(self.parts().1)
    }
    pub fn to_string(&self) -> JsString {
        let (n, m) = self.parts();
        JsString::from(&*format!("{}: {}", n.borrow(), m))
    }
}

// ---- promises ----

thread_local! {
    static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = Default::default();
    static SETTLED: Cell<u64> = const { Cell::new(0) };
}

/// Settles a promise made by `Promise::pending`.
#[derive(Clone)]
pub struct Settle(Rc<State>);
impl Settle {
    /// Only the first call has an effect, as in JavaScript.
    pub fn with(&self, r: Result<JsValue, JsValue>) {
        self.0.settled.set(self.0.settled.get() + 1);
        let mut d = self.0.done.borrow_mut();
        if d.is_none() {
            *d = Some(r);
            SETTLED.with(|s| s.set(s.get() + 1));
        }
    }
}
impl Promise {
    pub fn pending() -> (Promise, Settle) {
        let s = Rc::new(State::default());
        (Promise(v(Val::Promise(s.clone()))), Settle(s))
    }
    fn state(&self) -> &Rc<State> {
        match &*self.0 .0 {
            Val::Promise(s) => s,
            _ => panic!("not a promise"),
        }
    }
    pub fn resolve(x: &JsValue) -> Promise {
        if let Some(p) = x.dyn_ref::<Promise>() {
            return p.clone();
        }
        let (p, s) = Promise::pending();
        s.with(Ok(x.clone()));
        p
    }
    pub fn reject(x: &JsValue) -> Promise {
        let (p, s) = Promise::pending();
        s.with(Err(x.clone()));
        p
    }
    /// What it came to, if it is settled.
    pub fn outcome(&self) -> Option<Result<JsValue, JsValue>> {
        self.state().done.borrow().clone()
    }
}
pub struct JsFuture(Promise);
impl From<Promise> for JsFuture {
    fn from(p: Promise) -> JsFuture {
        JsFuture(p)
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.outcome() {
            Some(x) => Poll::Ready(x),
            None => Poll::Pending,
        }
    }
}
pub fn settled(x: JsValue) -> JsFuture {
    JsFuture(Promise::resolve(&x))
}
pub fn spawn_local<F: Future<Output = ()> + 'static>(f: F) {
    TASKS.with(|t| t.borrow_mut().push(Box::pin(f)))
}
pub fn future_to_promise<F: Future<Output = Result<JsValue, JsValue>> + 'static>(f: F) -> Promise {
    let (p, s) = Promise::pending();
    spawn_local(async move { s.with(f.await) });
    p
}
fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &TABLE)
    }
    fn no(_: *const ()) {}
    static TABLE: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    unsafe { Waker::from_raw(clone(std::ptr::null())) }
}
/// One turn of the event loop: every task goes on as far as it can. Gives whether anything happened.
pub fn turn(order: impl Fn(usize) -> usize) -> bool {
    let before = SETTLED.with(|s| s.get());
    let mut tasks = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    let n = tasks.len();
    let mut left = vec![];
    while !tasks.is_empty() {
        let i = order(tasks.len()) % tasks.len();
        let mut t = tasks.swap_remove(i);
        let w = waker();
        if t.as_mut().poll(&mut Context::from_waker(&w)).is_pending() {
            left.push(t)
        }
    }
    let ended = left.len() < n;
    TASKS.with(|t| {
        let mut t = t.borrow_mut();
        left.append(&mut t);
        *t = left;
    });
    ended || SETTLED.with(|s| s.get()) != before
}
/// Drops all tasks (after a panic, say).
pub fn reset() {
    let t = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(t);
}
pub fn waiting() -> usize {
    TASKS.with(|t| t.borrow().len())
}

pub fn call_method(this: &JsValue, name: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
    match &*this.get(name).0 {
        Val::Func(f) => f(this, args),
        _ => {
            let e = Error::new(&format!("this.{name} is not a function"));
            e.set_name("TypeError");
            Err(e.into())
        }
    }
}
