//! C24: every operation of the JavaScript interface settles its promise with the core library's answer.
#[path = "../../shared/c10e.rs"]
mod c10e;
use crate::{
    calls::*,
    dc::{algorithms::AnonCryptAlg, error::ErrorKind, FromPrior, Message, PackEncryptedOptions, UnpackOptions},
    gmsg,
    scn::*,
    world::*,
};
use c10e::KINDS;
use didcomm_js as js;
use serde_json::{json, Map, Value};
use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    rc::Rc,
};
use vcommon::{gen, guard, Obs, Rng, Runner};
use wasm_bindgen::{
    js::{reset, turn, waiting, Array, Error, Promise, Settle},
    JsCast, JsValue,
};

/// Values as JavaScript can hold them: numbers are doubles; 1 and 1.0 are the same.
fn norm(v: &Value) -> Value {
    match v {
        Value::Number(n) => {
            let x = n.as_f64().unwrap_or(f64::NAN);
            if x == x.trunc() && x.abs() < 9007199254740992.0 {
                json!(x as i64)
            } else {
                json!(format!("{x:.11e}"))
            }
        }
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        _ => v.clone(),
    }
}
/// The same value with every integer small enough for JavaScript.
fn small(v: &Value) -> Value {
    match v {
        Value::Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(u), _) => json!(u & ((1 << 53) - 1)),
            (_, Some(i)) => json!(-((i.unsigned_abs() & ((1 << 53) - 1)) as i64)),
            _ => v.clone(),
        },
        Value::Array(a) => Value::Array(a.iter().map(small).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), small(v))).collect()),
        _ => v.clone(),
    }
}
fn val(x: &Value) -> JsValue {
    JsValue::parse(&x.to_string()).unwrap()
}
fn json_of(x: &JsValue) -> Value {
    x.stringify().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null)
}

// ---- the caller's resolvers ----

/// How something is thrown, and as what the core library should see it.
#[derive(Clone, Debug, PartialEq)]
enum Thrown {
    Kind(usize),
    OtherName,
    Text,
    Odd(u8),
}
impl Thrown {
    fn gen(r: &mut Rng) -> Thrown {
        match r.below(12) {
            0 => Thrown::OtherName,
            1 => Thrown::Text,
            2 => Thrown::Odd(r.below(4) as u8),
            _ => Thrown::Kind(r.below(KINDS.len())),
        }
    }
    fn kind(&self) -> ErrorKind {
        match self {
            Thrown::Kind(k) => KINDS[*k].0,
            _ => ErrorKind::InvalidState,
        }
    }
    fn value(&self) -> JsValue {
        match self {
            Thrown::Kind(k) => {
                let e = Error::new("injected");
                e.set_name(&format!("DIDComm{}", KINDS[*k].1));
                e.into()
            }
            Thrown::OtherName => Error::new("injected").into(),
            Thrown::Text => "injected".into(),
            Thrown::Odd(0) => JsValue::undefined(),
            Thrown::Odd(1) => JsValue::null(),
            Thrown::Odd(2) => JsValue::from_f64(3.0),
            Thrown::Odd(_) => JsValue::object(vec![("name", "DIDCommIoError".into()), ("message", "x".into())]),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Plan {
    Now,
    Later,
    /// Throws before returning a promise.
    Throw(Thrown),
    Reject(Thrown),
    RejectLater(Thrown),
    Nothing(bool),
    /// Answers with a value of another type.
    Junk(u8),
}

#[derive(Default)]
struct Host {
    docs: HashMap<String, Value>,
    secrets: HashMap<String, Value>,
    plans: Vec<Plan>,
    calls: Cell<usize>,
    log: RefCell<Vec<String>>,
    fault: RefCell<Option<(usize, Fault)>>,
    junk: Cell<bool>,
    /// Promises not yet settled.
    open: RefCell<Vec<(Settle, Result<JsValue, JsValue>)>>,
}

fn junk(n: u8) -> JsValue {
    match n {
        0 => "text".into(),
        1 => JsValue::from_f64(7.0),
        2 => JsValue::from_bool(true),
        3 => JsValue::object(vec![("id", "x".into())]),
        _ => JsValue::func(|_, _| Ok(JsValue::undefined())),
    }
}

impl Host {
    fn answer(&self, what: String, val: JsValue, nothing: [JsValue; 2]) -> Result<JsValue, JsValue> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        self.log.borrow_mut().push(what);
        let set = |f: Fault| *self.fault.borrow_mut() = Some((n, f));
        match self.plans.get(n).cloned().unwrap_or(Plan::Now) {
            Plan::Now => Ok(Promise::resolve(&val).into()),
            Plan::Later => Ok(self.later(Ok(val))),
            Plan::Throw(t) => {
                set(Fault::Err(t.kind()));
                Err(t.value())
            }
            Plan::Reject(t) => {
                set(Fault::Err(t.kind()));
                Ok(Promise::reject(&t.value()).into())
            }
            Plan::RejectLater(t) => {
                set(Fault::Err(t.kind()));
                Ok(self.later(Err(t.value())))
            }
            Plan::Nothing(i) => {
                set(Fault::Nothing);
                let [a, b] = nothing;
                Ok(self.later(Ok(if i { a } else { b })))
            }
            Plan::Junk(k) => {
                self.junk.set(true);
                Ok(self.later(Ok(junk(k))))
            }
        }
    }
    fn later(&self, x: Result<JsValue, JsValue>) -> JsValue {
        let (p, s) = Promise::pending();
        self.open.borrow_mut().push((s, x));
        p.into()
    }
    fn dids(self: &Rc<Self>) -> JsValue {
        let me = self.clone();
        JsValue::object(vec![(
            "resolve",
            JsValue::func(move |_, a| {
                let did = a.first().and_then(|x| x.as_string()).unwrap_or_else(|| "(no text)".into());
                let v = me.docs.get(&did).map(val).unwrap_or_else(JsValue::null);
                me.answer(format!("resolve {did}"), v, [JsValue::null(), JsValue::undefined()])
            }),
        )])
    }
    fn keys(self: &Rc<Self>) -> JsValue {
        let (me, me2) = (self.clone(), self.clone());
        JsValue::object(vec![
            (
                "get_secret",
                JsValue::func(move |_, a| {
                    let id = a.first().and_then(|x| x.as_string()).unwrap_or_else(|| "(no text)".into());
                    let v = me.secrets.get(&id).map(val).unwrap_or_else(JsValue::null);
                    me.answer(format!("get {id}"), v, [JsValue::null(), JsValue::undefined()])
                }),
            ),
            (
                "find_secrets",
                JsValue::func(move |_, a| {
                    let ids: Vec<String> = a.first().and_then(|x| x.elements()).unwrap_or_default().iter().map(|x| x.as_string().unwrap_or_else(|| "(no text)".into())).collect();
                    let v = ids.iter().filter(|i| me2.secrets.contains_key(*i)).map(|i| JsValue::from_str(i)).collect();
                    me2.answer(format!("find {}", ids.join(",")), JsValue::array(v), [JsValue::array(vec![]), JsValue::array(vec![])])
                }),
            ),
        ])
    }
}

fn host(c: &Case, plans: Vec<Plan>) -> Rc<Host> {
    Rc::new(Host {
        docs: c.dr.docs.iter().map(|(k, d)| (k.clone(), serde_json::to_value(d).unwrap())).collect(),
        secrets: c.sr.secrets.iter().map(|(k, d)| (k.clone(), serde_json::to_value(d).unwrap())).collect(),
        plans,
        ..Default::default()
    })
}

// ---- operations through the interface ----

/// Options as an object, members at their documented default left out at random.
fn pack_options(o: &PackEncryptedOptions, r: &mut Rng) -> Value {
    let mut m = Map::new();
    if o.protect_sender || r.bool() {
        m.insert("protect_sender".into(), json!(o.protect_sender));
    }
    if !o.forward || r.bool() {
        m.insert("forward".into(), json!(o.forward));
    }
    if let Some(h) = &o.forward_headers {
        m.insert("forward_headers".into(), serde_json::to_value(h).unwrap());
    }
    if let Some(s) = &o.messaging_service {
        m.insert("messaging_service".into(), json!(s));
    }
    if r.bool() {
        m.insert("enc_alg_auth".into(), json!("A256cbcHs512Ecdh1puA256kw"));
    }
    let n = match o.enc_alg_anon {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw",
        AnonCryptAlg::Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw",
        AnonCryptAlg::A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw",
    };
    if !matches!(o.enc_alg_anon, AnonCryptAlg::Xc20pEcdhEsA256kw) || r.bool() {
        m.insert("enc_alg_anon".into(), json!(n));
    }
    Value::Object(m)
}
fn unpack_options(o: &UnpackOptions, r: &mut Rng) -> Value {
    let mut m = Map::new();
    if o.expect_decrypt_by_all_keys || r.bool() {
        m.insert("expect_decrypt_by_all_keys".into(), json!(o.expect_decrypt_by_all_keys));
    }
    if o.unwrap_re_wrapping_forward || r.bool() {
        m.insert("unwrap_re_wrapping_forward".into(), json!(o.unwrap_re_wrapping_forward));
    }
    Value::Object(m)
}

fn message(m: &Message) -> Result<js::Message, JsValue> {
    js::Message::new(val(&gmsg::message_json(m)).unchecked_into())
}
fn prior_json(f: &FromPrior) -> Value {
    let mut m = Map::new();
    m.insert("iss".into(), json!(f.iss));
    m.insert("sub".into(), json!(f.sub));
    for (n, v) in [("aud", json!(f.aud)), ("exp", json!(f.exp)), ("nbf", json!(f.nbf)), ("iat", json!(f.iat)), ("jti", json!(f.jti))] {
        if !v.is_null() {
            m.insert(n.into(), v);
        }
    }
    Value::Object(m)
}

fn start(call: &Call, h: &Rc<Host>, r: &mut Rng) -> Result<Promise, JsValue> {
    let (d, k) = (js::DIDResolver::from(h.dids()), js::SecretsResolver::from(h.keys()));
    Ok(match call {
        Call::Plain(m) => message(m)?.pack_plaintext(d),
        Call::Signed(m, by) => message(m)?.pack_signed(by.clone(), d, k),
        Call::Enc(m, to, from, by, o) => message(m)?.pack_encrypted(to.clone(), from.clone(), by.clone(), d, k, val(&pack_options(o, r))),
        Call::Unpack(t, o) => js::Message::unpack(t.clone(), d, k, val(&unpack_options(o, r))),
        Call::FpPack(f, kid) => js::FromPrior::new(val(&prior_json(f)).unchecked_into())?.pack(kid.clone(), d, k),
        Call::FpUnpack(t) => js::FromPrior::unpack(t.clone(), d),
        Call::Wrap(t, hd, to, keys, alg) => {
            let alg = match alg {
                AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw",
                AnonCryptAlg::Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw",
                AnonCryptAlg::A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw",
            };
            js::Message::wrap_in_forward(t.clone(), val(&json!(hd)), to.clone(), val(&json!(keys)), alg.into(), d)
        }
    })
}

/// What a resolved promise holds, or why it has not the documented form.
fn read(call: &Call, x: &JsValue) -> Result<Answer, String> {
    if let Call::Plain(_) = call {
        let t = x.as_string().ok_or("not a string")?;
        return Ok(a(None, serde_json::from_str(&t).map_err(|e| e.to_string())?));
    }
    if let Call::Wrap(..) = call {
        return Ok(a(Some(x.as_string().ok_or("not a string")?), Value::Null));
    }
    let v = x.elements().ok_or("not an array")?;
    if v.len() != 2 {
        return Err(format!("{} elements", v.len()));
    }
    let text = || v[0].as_string().ok_or("first element is not a string");
    Ok(match call {
        Call::Signed(..) => {
            let m = json_of(&v[1]);
            let by = m.get("sign_by_kid").cloned().unwrap_or(Value::Null);
            if m.as_object().map(|m| m.len()) != Some(1) {
                return Err(format!("metadata {m}"));
            }
            a(Some(text()?), by)
        }
        Call::Enc(..) => a(Some(text()?), json_of(&v[1])),
        Call::Unpack(..) => {
            let m: js::Message = v[0].take_exported().ok_or("first element is not a Message")?;
            let fw = json_of(&m.try_parse_forward().map_err(|e| format!("try_parse_forward: {e:?}"))?);
            let m = m.as_value().map_err(|e| format!("as_value: {e:?}"))?;
            // (JavaScript's numbers may turn a time into one no Message has)
            let core = serde_json::from_value::<Message>(json_of(&m)).ok();
            if core.map_or(false, |core| norm(&fw) != norm(&serde_json::to_value(crate::dc::protocols::routing::try_parse_forward(&core)).unwrap())) {
                return Err(format!("try_parse_forward gives {fw}"));
            }
            a(None, json!([json_of(&m), json_of(&v[1])]))
        }
        Call::FpPack(..) => a(Some(text()?), json!(v[1].as_string())),
        Call::FpUnpack(..) => {
            let m: js::FromPrior = v[0].take_exported().ok_or("first element is not a FromPrior")?;
            let m = json_of(&m.as_value().map_err(|e| format!("as_value: {e:?}"))?);
            let f: Vec<Value> = ["iss", "sub", "aud", "exp", "nbf", "iat", "jti"].iter().map(|n| m.get(*n).cloned().unwrap_or(Value::Null)).collect();
            if m.as_object().map(|o| o.len()).unwrap_or(0) != f.iter().filter(|x| !x.is_null()).count() {
                return Err(format!("members of {m}"));
            }
            a(None, json!([f, v[1].as_string()]))
        }
        _ => return Err("no such operation".into()),
    })
}

/// name and message of a rejection, or why it has not the documented form.
fn rejected(e: &JsValue) -> Result<(ErrorKind, String), String> {
    let (name, msg) = e.error_parts().ok_or_else(|| format!("rejected with {e:?}, not an Error"))?;
    KINDS.iter().find(|k| name == format!("DIDComm{}", k.1)).map(|k| (k.0, msg)).ok_or_else(|| format!("error name {name}"))
}

/// Turns the event loop; settles the resolvers' promises one at a time in random order. False if it never comes to rest.
fn drive(hosts: &[Rc<Host>], r: &mut Rng) -> bool {
    for _ in 0..100_000 {
        let pick = RefCell::new(&mut *r);
        if turn(|n| pick.borrow_mut().below(n)) {
            continue;
        }
        let open: Vec<usize> = (0..hosts.len()).filter(|i| !hosts[*i].open.borrow().is_empty()).collect();
        if open.is_empty() {
            return true;
        }
        let h = &hosts[*r.pick(&open)];
        let i = r.below(h.open.borrow().len());
        let (s, x) = h.open.borrow_mut().remove(i);
        s.with(x);
    }
    false
}

fn plan(r: &mut Rng, n: usize, faulty: bool) -> Vec<Plan> {
    let at = if faulty && n > 0 { r.below(n) } else { usize::MAX };
    let style = r.below(3);
    (0..n)
        .map(|i| {
            if i == at {
                return match r.below(8) {
                    0 | 1 => Plan::Throw(Thrown::gen(r)),
                    2 | 3 => Plan::Reject(Thrown::gen(r)),
                    4 | 5 => Plan::RejectLater(Thrown::gen(r)),
                    6 => Plan::Nothing(r.bool()),
                    _ => Plan::Junk(r.below(5) as u8),
                };
            }
            match style {
                0 => Plan::Now,
                1 => Plan::Later,
                _ if r.bool() => Plan::Now,
                _ => Plan::Later,
            }
        })
        .collect()
}

fn js_case(r: &mut Rng) -> Option<Case> {
    for _ in 0..8 {
        let mut c = case(r)?;
        renamed(&mut c, r);
        let fix = |m: &mut Message| match serde_json::from_value(small(&gmsg::message_json(m))) {
            Ok(x) => {
                *m = x;
                true
            }
            Err(_) => false,
        };
        let ok = match &mut c.call {
            Call::Wrap(t, h, ..) => {
                for v in h.values_mut() {
                    *v = small(v);
                }
                if let Ok(v) = serde_json::from_str::<Value>(t) {
                    *t = small(&v).to_string();
                }
                true
            }
            Call::Plain(m) | Call::Signed(m, _) | Call::Enc(m, ..) => fix(m),
            Call::FpPack(f, _) => {
                let s = |x: &mut Option<u64>| *x = x.map(|x| x & ((1 << 53) - 1));
                s(&mut f.exp);
                s(&mut f.nbf);
                s(&mut f.iat);
                true
            }
            _ => true,
        };
        if ok {
            return Some(c);
        }
    }
    None
}

fn judge(c: &Case, h: &Rc<Host>, p: &Promise, obs: &mut Obs, ctx: &Value) {
    let name = c.call.name();
    let out = match p.outcome() {
        Some(x) => x,
        None => return obs.violation("promise never settled", json!({"operation": name, "context": ctx})),
    };
    obs.count("promises settled");
    let got = match &out {
        Ok(x) => match read(&c.call, x) {
            Ok(a) => Ok(norm(&meaning(c, &a))),
            Err(e) => return obs.violation("result has not the documented form", json!({"operation": name, "what": e, "got": format!("{x:?}"), "context": ctx})),
        },
        Err(e) => match rejected(e) {
            Ok(k) => Err(k),
            Err(e) => return obs.violation("rejection has not the documented form", json!({"operation": name, "what": e, "context": ctx})),
        },
    };
    if h.junk.get() {
        obs.count("operations over a resolver that answers nonsense");
        return;
    }
    let ctl = std::sync::Arc::new(Ctl::default());
    let fault = h.fault.borrow().clone();
    *ctl.fault.lock().unwrap() = fault.clone();
    let (d, k) = (c.dr.with(&ctl), c.sr.with(&ctl));
    let want = match c.call.core(&d, &k) {
        Ok(x) => x.map(|x| norm(&meaning(c, &x))),
        Err(e) => return obs.harness(format!("{name}: core {e}")),
    };
    obs.count(name);
    obs.count(if want.is_ok() { "successes compared" } else { "errors compared" });
    if fault.is_some() {
        obs.count("operations with a failing resolver");
    }
    obs.sample(|| json!({"operation": name, "resolver_calls": h.log.borrow().clone(), "outcome": vcommon::cut(&format!("{:?}", got.as_ref().map(|_| "resolved")), 120)}));
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            obs.check(g == w, "result differs from the core library's", || json!({"operation": name, "got": g, "core": w, "context": ctx}));
        }
        (Err((g, m)), Err(w)) => {
            obs.check(*g == w.kind(), "error kind differs from the core library's", || json!({"operation": name, "got": format!("{g:?}"), "core": format!("{:?}", w.kind()), "fault": format!("{fault:?}"), "context": ctx}));
            obs.check(!m.is_empty(), "error without a message", || json!({"operation": name, "context": ctx}));
            if fault.is_none() {
                obs.check(m.contains(&format!("{w}")), "error message differs from the core library's", || json!({"operation": name, "got": m, "core": format!("{w}"), "context": ctx}));
            }
        }
        _ => obs.violation("outcome differs from the core library's", json!({"operation": name, "got": vcommon::cut(&format!("{got:?}"), 900), "core": vcommon::cut(&format!("{want:?}"), 900), "fault": format!("{fault:?}"), "context": ctx})),
    }
    let (gl, wl) = (h.log.borrow().clone(), ctl.log.lock().unwrap().clone());
    obs.countn("resolver calls", gl.len() as u64);
    obs.check(gl == wl, "resolvers are asked for something else", || json!({"operation": name, "calls": gl, "core": wl}));
}

fn plans_for(c: &Case, r: &mut Rng) -> Option<Vec<Plan>> {
    let ctl = std::sync::Arc::new(Ctl::default());
    c.call.core(&c.dr.with(&ctl), &c.sr.with(&ctl)).ok()?.ok();
    let n = ctl.log.lock().unwrap().len();
    let faulty = r.chance(2, 5);
    Some(plan(r, n, faulty))
}

/// One operation, or several at once, over one event loop.
fn operations(k: u64, r: &mut Rng, obs: &mut Obs) {
    let n = if k % 4 == 0 { r.range(2, 6) } else { 1 };
    let mut cases = vec![];
    for _ in 0..n {
        if let Some(c) = js_case(r) {
            if let Some(p) = plans_for(&c, r) {
                let h = host(&c, p);
                cases.push((c, h));
            }
        }
    }
    if cases.is_empty() {
        return obs.harness("no case could be set up");
    }
    reset();
    let hosts: Vec<Rc<Host>> = cases.iter().map(|x| x.1.clone()).collect();
    let res = guard(|| {
        let p: Vec<_> = cases.iter().map(|(c, h)| start(&c.call, h, r)).collect();
        let rest = drive(&hosts, r);
        (p, rest)
    });
    let (proms, rest) = match res {
        Ok(x) => x,
        Err(e) => {
            reset();
            return obs.violation("panic", json!({"what": e.to_string(), "operations": cases.iter().map(|c| c.0.call.name()).collect::<Vec<_>>(), "plans": hosts.iter().map(|h| format!("{:?}", h.plans)).collect::<Vec<_>>()}));
        }
    };
    if cases.len() > 1 {
        obs.countn("operations at once", cases.len() as u64);
    }
    obs.check(rest && waiting() == 0, "operations still wait though every resolver has answered", || json!({"tasks": waiting()}));
    reset();
    for ((c, h), p) in cases.iter().zip(&proms) {
        obs.eval(&format!("{}{}{:?}{}", c.shape, h.plans.iter().map(|p| format!("{p:?}").chars().next().unwrap()).collect::<String>(), h.fault.borrow(), cases.len() > 1));
        let ctx = json!({"plans": format!("{:?}", h.plans), "case": c.s.brief()});
        match p {
            Ok(p) => judge(c, h, p, obs, &ctx),
            Err(e) => obs.violation("argument refused that the core library takes", json!({"operation": c.call.name(), "error": format!("{e:?}"), "context": ctx})),
        }
    }
}

/// A member dropped, of another type, or added.
fn spoil(v: &Value, r: &mut Rng) -> Value {
    let mut v = v.clone();
    let other = |r: &mut Rng| match r.below(6) {
        0 => Value::Null,
        1 => json!("text"),
        2 => json!(5),
        3 => json!([]),
        4 => json!({}),
        _ => json!(true),
    };
    if r.chance(1, 10) {
        return other(r);
    }
    if let Value::Object(m) = &mut v {
        let keys: Vec<String> = m.keys().cloned().collect();
        match r.below(4) {
            0 if !keys.is_empty() => {
                m.remove(r.pick(&keys));
            }
            1 => {
                m.insert(gen::word(r, 4), gen::json(r, 1));
            }
            2 if !keys.is_empty() => {
                let k = r.pick(&keys).clone();
                let x = spoil(&m[&k], r);
                m.insert(k, x);
            }
            _ if !keys.is_empty() => {
                m.insert(r.pick(&keys).clone(), other(r));
            }
            _ => {}
        }
    } else if let Value::Array(a) = &mut v {
        if a.is_empty() || r.bool() {
            a.push(other(r));
        } else {
            let i = r.below(a.len());
            a[i] = spoil(&a[i], r);
        }
    } else {
        v = other(r);
    }
    v
}

/// Messages and from_prior values as objects: taken as the core library takes their JSON, and given back unchanged.
fn values(_: u64, r: &mut Rng, obs: &mut Obs) {
    let honest = r.bool();
    let prior = r.chance(1, 4);
    let mut v = if prior {
        let num = |r: &mut Rng| if r.bool() { Some(gen::u64v(r)) } else { None };
        prior_json(&FromPrior { iss: did(r), sub: did(r), aud: r.bool().then(|| gen::text(r)), exp: num(r), nbf: num(r), iat: num(r), jti: r.bool().then(|| gen::text(r)) })
    } else {
        gmsg::message_json(&gmsg::message(r))
    };
    v = small(&v);
    if !honest {
        v = spoil(&v, r);
    }
    let x = val(&v);
    // a member that is undefined is no member
    if r.chance(1, 3) {
        x.set("zzz_undefined", JsValue::undefined());
    }
    let got = guard(|| {
        if prior {
            js::FromPrior::new(x.clone().unchecked_into()).and_then(|m| m.as_value())
        } else {
            js::Message::new(x.clone().unchecked_into()).and_then(|m| m.as_value())
        }
    });
    let text = v.to_string();
    let want: Option<Value> = if prior { serde_json::from_str::<FromPrior>(&text).ok().map(|m| serde_json::to_value(m).unwrap()) } else { serde_json::from_str::<Message>(&text).ok().map(|m| serde_json::to_value(m).unwrap()) };
    obs.eval(&format!("value{prior}{honest}{}", vcommon::cut(&text, 80)));
    match (got, want) {
        (Err(e), _) => obs.violation("panic", json!({"value": v, "what": e.to_string()})),
        (Ok(Ok(g)), Some(w)) => {
            obs.count("values given back");
            obs.check(norm(&json_of(&g)) == norm(&w), "value changed", || json!({"given": v, "back": json_of(&g), "core": w}));
            if honest && !prior {
                obs.check(norm(&json_of(&g)) == norm(&v), "value changed", || json!({"given": v, "back": json_of(&g)}));
            }
        }
        (Ok(Err(e)), None) => {
            obs.count("values refused");
            obs.check(matches!(rejected(&e), Ok((ErrorKind::Malformed, _))), "refused with another error than Malformed", || json!({"given": v, "error": format!("{e:?}")}));
        }
        (Ok(Ok(g)), None) => obs.violation("value accepted that the core library refuses", json!({"given": v, "back": json_of(&g)})),
        (Ok(Err(e)), Some(_)) => obs.violation("value refused that the core library takes", json!({"given": v, "error": format!("{e:?}")})),
    }
}

/// Options objects: taken as the core library takes their JSON; what it refuses rejects as Malformed before any resolver is asked.
fn options(_: u64, r: &mut Rng, obs: &mut Obs) {
    let Some(c) = js_case(r) else { return obs.harness("no case") };
    let (v, pack) = match &c.call {
        Call::Enc(_, _, _, _, o) => (pack_options(o, r), true),
        Call::Unpack(_, o) => (unpack_options(o, r), false),
        _ => return,
    };
    let mut v = spoil(&v, r);
    if r.chance(1, 3) {
        v = spoil(&v, r);
    }
    let text = v.to_string();
    let mut c = c;
    let known = match &mut c.call {
        Call::Enc(_, _, _, _, o) => serde_json::from_str(&text).map(|x| *o = x).is_ok(),
        Call::Unpack(_, o) => serde_json::from_str(&text).map(|x| *o = x).is_ok(),
        _ => false,
    };
    let h = host(&c, vec![]);
    reset();
    let res = guard(|| {
        let (d, k) = (js::DIDResolver::from(h.dids()), js::SecretsResolver::from(h.keys()));
        let p = match &c.call {
            Call::Enc(m, to, from, by, _) => message(m)?.pack_encrypted(to.clone(), from.clone(), by.clone(), d, k, val(&v)),
            Call::Unpack(t, _) => js::Message::unpack(t.clone(), d, k, val(&v)),
            _ => unreachable!(),
        };
        drive(std::slice::from_ref(&h), r);
        Ok::<_, JsValue>(p)
    });
    reset();
    obs.eval(&format!("options{pack}{text}"));
    let p = match res {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return obs.violation("argument refused that the core library takes", json!({"error": format!("{e:?}")})),
        Err(e) => return obs.violation("panic", json!({"options": v, "what": e.to_string()})),
    };
    if known {
        obs.count("options taken");
        judge(&c, &h, &p, obs, &json!({"options": v}));
    } else {
        obs.count("options refused");
        let ok = matches!(p.outcome(), Some(Err(e)) if matches!(rejected(&e), Ok((ErrorKind::Malformed, _))));
        obs.check(ok, "malformed options not refused as Malformed", || json!({"options": v, "got": format!("{:?}", p.outcome())}));
    }
}

/// Resolvers whose answers carry more than was asked for, or of other types.
fn lists(_: u64, r: &mut Rng, obs: &mut Obs) {
    let Some(c) = js_case(r) else { return obs.harness("no case") };
    let h = host(&c, vec![]);
    let keys = h.keys();
    let inner = keys.get("find_secrets");
    let style = r.below(4);
    let me = h.clone();
    drop(inner);
    keys.set(
        "find_secrets",
        JsValue::func(move |_, a| {
            let ids: Vec<String> = a.first().and_then(|x| x.elements()).unwrap_or_default().iter().map(|x| x.as_string().unwrap_or_default()).collect();
            let mut v: Vec<JsValue> = ids.iter().filter(|i| me.secrets.contains_key(*i)).map(|i| JsValue::from_str(i)).collect();
            me.log.borrow_mut().push(format!("find {}", ids.join(",")));
            match style {
                0 => v.push("did:example:somebody#else".into()),
                1 => v.insert(0, JsValue::from_f64(1.0)),
                2 => {
                    let w = v.clone();
                    v.extend(w)
                }
                _ => v.insert(0, JsValue::null()),
            }
            Ok(Promise::resolve(&Array::from_iter(v)).into())
        }),
    );
    reset();
    let res = guard(|| {
        let (d, k) = (js::DIDResolver::from(h.dids()), js::SecretsResolver::from(keys.clone()));
        let p = match &c.call {
            Call::Unpack(t, o) => js::Message::unpack(t.clone(), d, k, val(&unpack_options(o, r))),
            Call::Signed(m, by) => message(m)?.pack_signed(by.clone(), d, k),
            Call::Enc(m, to, from, by, o) => message(m)?.pack_encrypted(to.clone(), from.clone(), by.clone(), d, k, val(&pack_options(o, r))),
            _ => return Ok(None),
        };
        drive(std::slice::from_ref(&h), r);
        Ok::<_, JsValue>(Some(p))
    });
    reset();
    match res {
        Ok(Ok(Some(p))) => {
            obs.eval(&format!("lists{style}{}", c.shape));
            obs.count("operations over lists with more than was asked for");
            judge(&c, &h, &p, obs, &json!({"lists": style}));
        }
        Ok(Ok(None)) => {}
        Ok(Err(e)) => obs.violation("argument refused that the core library takes", json!({"error": format!("{e:?}")})),
        Err(e) => obs.violation("panic", json!({"lists": style, "what": e.to_string()})),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Each judged execution is one operation of the JavaScript interface (compiled from wasm/src, run natively over a model of JavaScript values, promises and \
         the event loop), alone or with others in flight, over resolvers that answer at once, later, with null or undefined, throw, or reject with errors of every \
         name, compared with the core library over the same answers: form and meaning of the result, error name, and the sequence of resolver calls; or one value \
         or options object crossing the boundary. Distinct by operation, message and key shape, delivery plan and fault.",
    );
    run.assume("wasm-bindgen, js-sys and wasm-bindgen-futures are replaced by a native model of the JavaScript values and promises the bindings use; the generated JavaScript glue and the wasm32 target do not run.");
    run.assume("Numbers are compared as JavaScript doubles; integers beyond 2^53 are not sent.");
    let n = run.cfg.n(5000, 100_000);
    run.cases("operations", n, operations);
    let n = run.cfg.n(8000, 150_000);
    run.cases("values", n, values);
    let n = run.cfg.n(4000, 60_000);
    run.cases("options", n, options);
    let n = run.cfg.n(1500, 30_000);
    run.cases("lists", n, lists);
    run.require("promises settled", 3000);
    run.require("operations with a failing resolver", 800);
    run.require("operations at once", 1000);
    run.require("values refused", 800);
    run.require("options refused", 300);
}
