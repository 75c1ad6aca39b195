//! C19: every operation of the callback interface calls back exactly once with the core library's answer.
#[path = "../../shared/c10e.rs"]
mod c10e;
use crate::{
    dc::{
        algorithms::AnonCryptAlg,
        did::{resolvers::ExampleDIDResolver as CoreDids, DIDDoc},
        error::{ErrorKind, Result},
        protocols::routing::{try_parse_forward, wrap_in_forward},
        secrets::{resolvers::ExampleSecretsResolver as CoreSecrets, Secret},
        FromPrior, Message, PackEncryptedMetadata, PackEncryptedOptions, UnpackMetadata, UnpackOptions,
    },
    calls::*,
    gmsg,
    scn::*,
    world::*,
};
use c10e::KINDS;
use didcomm_uniffi as ffi;
use ffi::ErrorCode;
use serde_json::{json, Value};
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicUsize, Ordering},
        mpsc, Arc, Barrier, Mutex,
    },
    time::Duration,
};
use vcommon::{gen, Abnormal, Obs, Rng, Runner};

const WAIT: Duration = Duration::from_secs(90);

// ---- operations through the callback interface ----

fn start(call: &Call, dc: &ffi::DIDComm) -> (ErrorCode, Watch) {
        let (cb, w) = Cb::new();
        let c = match call {
            Call::Plain(m) => dc.pack_plaintext(m, Box::new(cb)),
            Call::Signed(m, by) => dc.pack_signed(m, by.clone(), Box::new(cb)),
            Call::Enc(m, to, from, by, o) => dc.pack_encrypted(m, to.clone(), from.clone(), by.clone(), o, Box::new(cb)),
            Call::Unpack(t, o) => dc.unpack(t.clone(), o, Box::new(cb)),
            Call::FpPack(f, kid) => dc.pack_from_prior(f, kid.clone(), Box::new(cb)),
            Call::FpUnpack(t) => dc.unpack_from_prior(t.clone(), Box::new(cb)),
            Call::Wrap(t, h, to, keys, alg) => dc.wrap_in_forward(t.clone(), h, to.clone(), keys, alg, Box::new(cb)),
        };
        (c, w)
    }

// ---- the caller's callbacks ----

enum Event {
    Ok(Answer),
    Err(ErrorKind),
    /// The library let go of the callback object: no further call can come.
    Gone,
}
struct Cb(Mutex<mpsc::Sender<Event>>);
struct Watch(mpsc::Receiver<Event>);

impl Cb {
    fn new() -> (Cb, Watch) {
        let (s, r) = mpsc::channel();
        (Cb(Mutex::new(s)), Watch(r))
    }
    fn say(&self, e: Event) {
        let _ = self.0.lock().unwrap().send(e);
    }
}
impl Drop for Cb {
    fn drop(&mut self) {
        self.say(Event::Gone)
    }
}
impl Watch {
    /// All callbacks made until the library let go of the object; None if it did not within the time limit.
    fn all(&self, limit: Duration) -> std::result::Result<Vec<std::result::Result<Answer, ErrorKind>>, Vec<String>> {
        let mut v = vec![];
        loop {
            match self.0.recv_timeout(limit) {
                Ok(Event::Ok(a)) => v.push(Ok(a)),
                Ok(Event::Err(k)) => v.push(Err(k)),
                Ok(Event::Gone) => return Ok(v),
                Err(_) => return Err(v.iter().map(|x| format!("{x:?}")).collect()),
            }
        }
    }
}

macro_rules! on {
    ($t:ident, ($($n:ident: $ty:ty),*), $e:expr) => {
        impl ffi::$t for Cb {
            fn success(&self, $($n: $ty),*) {
                self.say(Event::Ok($e))
            }
            fn error(&self, err: ErrorKind, _msg: String) {
                self.say(Event::Err(err))
            }
        }
    };
}
on!(OnPackPlaintextResult, (t: String), a(None, serde_json::from_str(&t).unwrap_or(Value::Null)));
on!(OnPackSignedResult, (t: String, m: crate::dc::PackSignedMetadata), a(Some(t), json!(m.sign_by_kid)));
on!(OnPackEncryptedResult, (t: String, m: PackEncryptedMetadata), a(Some(t), serde_json::to_value(m).unwrap()));
on!(OnUnpackResult, (m: Message, u: UnpackMetadata), unpack_answer(&m, &u));
on!(OnFromPriorPackResult, (t: String, kid: String), a(Some(t), json!(kid)));
on!(OnFromPriorUnpackResult, (f: FromPrior, kid: String), a(None, json!([fp_json(&f), kid])));
on!(OnWrapInForwardResult, (t: String), a(Some(t), Value::Null));

// ---- resolvers of the foreign side ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Plan {
    /// Answers before returning.
    Now,
    /// Answers from another thread after so many tenths of a millisecond.
    Later(u64),
    /// Answers, then tries to answer again with an error and once more with the answer.
    Twice,
    /// Two threads answer at the same moment, one with the answer, one with an error.
    Race(usize),
    Fail(usize),
    FailLater(usize, u64),
    /// Lets go of the handle without answering.
    Forget,
    ForgetLater(u64),
    /// Answers that there is nothing.
    Nothing,
}

type Again = Box<dyn Fn() -> bool + Send + Sync>;

#[derive(Default)]
struct Foreign {
    docs: HashMap<String, DIDDoc>,
    secrets: HashMap<String, Secret>,
    plans: Vec<Plan>,
    seed: u64,
    calls: AtomicUsize,
    log: Mutex<Vec<String>>,
    /// What the failing call turned out to answer.
    fault: Mutex<Option<(usize, Fault)>>,
    /// Later completions that were accepted although the handle had been used.
    accepted_again: Mutex<Vec<String>>,
    /// Completions refused although they were the first.
    refused: Mutex<Vec<String>>,
    refused_again: AtomicUsize,
    races: Mutex<Vec<(usize, usize)>>,
    /// Handles kept beyond the operation.
    again: Mutex<Vec<Again>>,
    threads: Mutex<Vec<std::thread::JoinHandle<()>>>,
}

trait Handle<T>: Send + Sync + 'static {
    fn ok(&self, t: T) -> std::result::Result<(), ErrorKind>;
    fn err(&self, k: ErrorKind) -> std::result::Result<(), ErrorKind>;
}
macro_rules! handle {
    ($h:ty, $t:ty) => {
        impl Handle<$t> for $h {
            fn ok(&self, t: $t) -> std::result::Result<(), ErrorKind> {
                self.success(t)
            }
            fn err(&self, k: ErrorKind) -> std::result::Result<(), ErrorKind> {
                static N: AtomicUsize = AtomicUsize::new(0);
                let n = N.fetch_add(1, Ordering::SeqCst);
                self.error(k, match n % 5 {
                    0 => String::new(),
                    1 => "x".repeat(1 + n % 70_000),
                    2 => "{\0}\"\\\n%s \u{1f4a5}".into(),
                    _ => "injected".into(),
                })
            }
        }
    };
}
handle!(ffi::OnDIDResolverResult, Option<DIDDoc>);
handle!(ffi::OnGetSecretResult, Option<Secret>);
handle!(ffi::OnFindSecretsResult, Vec<String>);

impl Foreign {
    fn first(&self, what: &str, r: std::result::Result<(), ErrorKind>) {
        if let Err(k) = r {
            self.refused.lock().unwrap().push(format!("{what}: {k:?}"));
        }
    }
    fn more(&self, what: &str, r: std::result::Result<(), ErrorKind>) {
        match r {
            Ok(()) => self.accepted_again.lock().unwrap().push(what.into()),
            Err(_) => {
                self.refused_again.fetch_add(1, Ordering::SeqCst);
            }
        }
    }
    fn answer<T: Clone + Send + Sync + 'static, H: Handle<T>>(self: &Arc<Self>, what: String, h: Arc<H>, val: T, nothing: T) -> ErrorCode {
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        self.log.lock().unwrap().push(what.clone());
        let plan = self.plans.get(n).copied().unwrap_or(Plan::Now);
        let kind = |i: usize| KINDS[i].0;
        let me = self.clone();
        let set = |f: Fault| *self.fault.lock().unwrap() = Some((n, f));
        let code = Rng::for_case(self.seed, "code", n as u64).bool();
        match plan {
            Plan::Now => self.first(&what, h.ok(val)),
            Plan::Nothing => {
                set(Fault::Nothing);
                self.first(&what, h.ok(nothing))
            }
            Plan::Fail(k) => {
                set(Fault::Err(kind(k)));
                self.first(&what, h.err(kind(k)))
            }
            Plan::Twice => {
                self.first(&what, h.ok(val.clone()));
                self.more("error after success", h.err(ErrorKind::IoError));
                self.more("success after success", h.ok(val.clone()));
                let hh = h.clone();
                self.again.lock().unwrap().push(Box::new(move || hh.ok(val.clone()).is_ok() || hh.err(ErrorKind::Malformed).is_ok()));
            }
            Plan::Later(d) => self.spawn(d, move || me.first(&what, h.ok(val))),
            Plan::FailLater(k, d) => {
                set(Fault::Err(kind(k)));
                self.spawn(d, move || {
                    me.first(&what, h.err(kind(k)));
                    me.more("success after error", h.ok(val))
                })
            }
            Plan::Forget => {
                set(Fault::Err(ErrorKind::InvalidState));
                drop(h)
            }
            Plan::ForgetLater(d) => {
                set(Fault::Err(ErrorKind::InvalidState));
                self.spawn(d, move || drop(h))
            }
            Plan::Race(k) => {
                let b = Arc::new(Barrier::new(2));
                let wins: Arc<Mutex<Vec<bool>>> = Default::default();
                let (h2, b2, w2, me2) = (h.clone(), b.clone(), wins.clone(), me.clone());
                let done = move |me: &Arc<Foreign>, wins: &Arc<Mutex<Vec<bool>>>, ok: bool, won: bool| {
                    let mut w = wins.lock().unwrap();
                    w.push(won);
                    if won && !ok {
                        *me.fault.lock().unwrap() = Some((n, Fault::Err(kind(k))));
                    }
                    if w.len() == 2 {
                        me.races.lock().unwrap().push((w.iter().filter(|x| **x).count(), ok as usize));
                    }
                };
                let d2 = done.clone();
                self.spawn(0, move || {
                    b.wait();
                    let won = h.ok(val).is_ok();
                    done(&me, &wins, true, won)
                });
                self.spawn(0, move || {
                    b2.wait();
                    let won = h2.err(kind(k)).is_ok();
                    d2(&me2, &w2, false, won)
                });
            }
        }
        if code {
            ErrorCode::Success
        } else {
            ErrorCode::Error
        }
    }
    fn spawn(&self, tenths: u64, f: impl FnOnce() + Send + 'static) {
        let t = std::thread::spawn(move || {
            if tenths > 0 {
                std::thread::sleep(Duration::from_micros(tenths * 100));
            }
            f()
        });
        self.threads.lock().unwrap().push(t);
    }
    fn join(&self) {
        let t = std::mem::take(&mut *self.threads.lock().unwrap());
        for t in t {
            let _ = t.join();
        }
    }
    fn didcomm(self: &Arc<Self>) -> ffi::DIDComm {
        ffi::DIDComm::new(Box::new(F(self.clone())), Box::new(F(self.clone())))
    }
}

struct F(Arc<Foreign>);

impl ffi::DIDResolver for F {
    fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ErrorCode {
        let v = self.0.docs.get(&did).cloned();
        self.0.answer(format!("resolve {did}"), cb, v, None)
    }
}
impl ffi::SecretsResolver for F {
    fn get_secret(&self, id: String, cb: Arc<ffi::OnGetSecretResult>) -> ErrorCode {
        let v = self.0.secrets.get(&id).cloned();
        self.0.answer(format!("get {id}"), cb, v, None)
    }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<ffi::OnFindSecretsResult>) -> ErrorCode {
        let mut v: Vec<String> = ids.iter().filter(|i| self.0.secrets.contains_key(*i)).cloned().collect();
        // ids nobody asked for mean nothing
        if self.0.seed % 3 == 0 {
            v.insert(0, "did:example:else#key".into());
        }
        self.0.answer(format!("find {}", ids.join(",")), cb, v, vec![])
    }
}

fn plan(r: &mut Rng, n: usize, faulty: bool) -> Vec<Plan> {
    let at = if faulty && n > 0 { r.below(n) } else { usize::MAX };
    let style = r.below(4);
    (0..n)
        .map(|i| {
            if i == at {
                let k = r.below(9);
                let d = r.below(20) as u64;
                return match r.below(7) {
                    0 => Plan::Fail(k),
                    1 => Plan::FailLater(k, d),
                    2 => Plan::Forget,
                    3 => Plan::ForgetLater(d),
                    4 => Plan::Nothing,
                    _ => Plan::Race(k),
                };
            }
            match (style, r.below(4)) {
                (0, _) => Plan::Now,
                (1, _) => Plan::Later(r.below(12) as u64),
                (_, 0) => Plan::Twice,
                (_, 1) => Plan::Later(0),
                (_, 2) => Plan::Later(1 + r.below(30) as u64),
                _ => Plan::Now,
            }
        })
        .collect()
}

fn foreign(c: &Case, plans: Vec<Plan>, seed: u64) -> Arc<Foreign> {
    Arc::new(Foreign { docs: (*c.dr.docs).clone(), secrets: (*c.sr.secrets).clone(), plans, seed, ..Default::default() })
}

fn show(o: &std::result::Result<Value, ErrorKind>) -> String {
    vcommon::cut(&format!("{o:?}"), 1500)
}

/// The single callback of an operation, or None after reporting that there was not exactly one.
fn one(obs: &mut Obs, name: &str, w: &Watch, ctx: &Value) -> Option<std::result::Result<Answer, ErrorKind>> {
    match w.all(WAIT) {
        Err(v) => {
            obs.violation(if v.is_empty() { "no callback" } else { "callback object never released" }, json!({"operation": name, "after_s": WAIT.as_secs(), "callbacks": v, "context": ctx}));
            None
        }
        Ok(v) if v.len() != 1 => {
            obs.violation("not exactly one callback", json!({"operation": name, "callbacks": v.iter().map(|x| vcommon::cut(&format!("{x:?}"), 200)).collect::<Vec<_>>(), "context": ctx}));
            None
        }
        Ok(mut v) => {
            obs.count("callbacks");
            Some(v.remove(0))
        }
    }
}

fn same(c: u64, r: &mut Rng, obs: &mut Obs) {
    let mut case = match case(r) {
        Some(x) => x,
        None => return obs.harness(format!("case {c} could not be set up")),
    };
    renamed(&mut case, r);
    let ctl = Arc::new(Ctl::default());
    let (d, k) = (case.dr.with(&ctl), case.sr.with(&ctl));
    let n = match case.call.core(&d, &k) {
        Ok(_) => ctl.log.lock().unwrap().len(),
        Err(e) => return obs.harness(format!("{}: core {e}", case.call.name())),
    };
    let faulty = r.chance(2, 5);
    let plans = plan(r, n, faulty);
    let f = foreign(&case, plans.clone(), r.u64());
    let dc = f.didcomm();
    let (code, w) = start(&case.call, &dc);
    let name = case.call.name();
    let ctx = json!({"plans": format!("{plans:?}"), "case": case.s.brief()});
    obs.check(matches!(code, ErrorCode::Success), "operation refused to start", || json!({"operation": name}));
    let keep = r.bool();
    let dc = if keep { Some(dc) } else { None };
    let got = match one(obs, name, &w, &ctx) {
        Some(x) => x,
        None => return,
    };
    f.join();
    drop(dc);
    ctl.reset();
    let fault = f.fault.lock().unwrap().clone();
    *ctl.fault.lock().unwrap() = fault.clone();
    let want = match case.call.core(&d, &k) {
        Ok(x) => x,
        Err(e) => return obs.harness(format!("{name}: core {e}")),
    };
    let want = want.map(|x| meaning(&case, &x)).map_err(|e| e.kind());
    let got = got.map(|x| meaning(&case, &x));
    obs.eval(&format!("{}{}{:?}", case.shape, plans.iter().map(|p| format!("{p:?}").chars().next().unwrap()).collect::<String>(), fault));
    obs.count(name);
    obs.count(if want.is_ok() { "successes compared" } else { "errors compared" });
    if fault.is_some() {
        obs.count("operations with a failing resolver");
    }
    obs.sample(|| json!({"operation": name, "plans": format!("{plans:?}"), "outcome": vcommon::cut(&format!("{:?}", got.as_ref().map(|_| "success")), 100), "resolver_calls": f.log.lock().unwrap().clone()}));
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            obs.check(g == w, "result differs from the core library's", || json!({"operation": name, "got": g, "core": w, "context": ctx}));
        }
        (Err(g), Err(w)) => {
            obs.check(g == w, "error kind differs from the core library's", || json!({"operation": name, "got": format!("{g:?}"), "core": format!("{w:?}"), "fault": format!("{fault:?}"), "context": ctx}));
        }
        _ => obs.violation("outcome differs from the core library's", json!({"operation": name, "got": show(&got), "core": show(&want), "fault": format!("{fault:?}"), "context": ctx})),
    }
    let (gl, wl) = (f.log.lock().unwrap().clone(), ctl.log.lock().unwrap().clone());
    obs.countn("resolver calls", gl.len() as u64);
    obs.check(gl == wl, "resolvers are asked for something else", || json!({"operation": name, "calls": gl, "core": wl}));
    // completion handles
    let refused = f.refused.lock().unwrap().clone();
    obs.check(refused.is_empty(), "first completion refused", || json!({"operation": name, "which": refused}));
    for g in f.again.lock().unwrap().iter() {
        if g() {
            f.accepted_again.lock().unwrap().push("after the operation ended".into());
        } else {
            f.refused_again.fetch_add(1, Ordering::SeqCst);
        }
    }
    let twice = f.accepted_again.lock().unwrap().clone();
    obs.check(twice.is_empty(), "second completion accepted", || json!({"operation": name, "which": twice}));
    obs.countn("later completions refused", f.refused_again.load(Ordering::SeqCst) as u64);
    for (winners, _) in f.races.lock().unwrap().iter() {
        obs.count("concurrent completions");
        obs.check(*winners == 1, "concurrent completions not settled for exactly one", || json!({"operation": name, "accepted": winners}));
    }
}

/// Many operations wait for their resolvers at once; others go through meanwhile; then all end.
fn parked(_: u64, r: &mut Rng, obs: &mut Obs) {
    struct Gate(Mutex<Vec<Box<dyn FnOnce() + Send>>>, Arc<Foreign>);
    impl ffi::DIDResolver for Gate2 {
        fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ErrorCode {
            let v = self.0 .1.docs.get(&did).cloned();
            self.0 .0.lock().unwrap().push(Box::new(move || {
                let _ = cb.success(v);
            }));
            ErrorCode::Success
        }
    }
    struct Gate2(Arc<Gate>);
    let many = r.range(24, 60);
    let mut open = vec![];
    for _ in 0..many {
        if let Some(c) = case(r) {
            if c.call.core(&c.dr, &c.sr).map(|x| x.is_ok()).unwrap_or(false) && !matches!(c.call, Call::Plain(_)) {
                let gate = Arc::new(Gate(Default::default(), foreign(&c, vec![], r.u64())));
                let dc = ffi::DIDComm::new(Box::new(Gate2(gate.clone())), Box::new(F(gate.1.clone())));
                let (_, w) = start(&c.call, &dc);
                open.push((c, gate, w));
            }
        }
    }
    obs.countn("operations parked at a resolver", open.len() as u64);
    for _ in 0..4 {
        let c = match case(r) {
            Some(c) => c,
            None => continue,
        };
        let f = foreign(&c, vec![], r.u64());
        let (_, w) = start(&c.call, &f.didcomm());
        if let Some(x) = one(obs, c.call.name(), &w, &json!("while other operations wait for their resolvers")) {
            obs.eval(&format!("beside{}", c.shape));
            if let Ok(core) = c.call.core(&c.dr, &c.sr) {
                let (g, w) = (x.map(|x| meaning(&c, &x)), core.map(|x| meaning(&c, &x)).map_err(|e| e.kind()));
                obs.check(g == w, "result differs beside waiting operations", || json!({"operation": c.call.name(), "got": show(&g), "core": show(&w)}));
            }
        }
    }
    // let them go in a random order until none waits any more
    let t0 = std::time::Instant::now();
    let mut left: Vec<usize> = (0..open.len()).collect();
    let mut ended: Vec<Option<Vec<std::result::Result<Answer, ErrorKind>>>> = (0..open.len()).map(|_| None).collect();
    let mut seen: Vec<Vec<std::result::Result<Answer, ErrorKind>>> = (0..open.len()).map(|_| vec![]).collect();
    while !left.is_empty() && t0.elapsed() < WAIT {
        r.shuffle(&mut left);
        for &i in &left {
            let (_, gate, w) = &open[i];
            loop {
                match w.0.try_recv() {
                    Ok(Event::Ok(a)) => seen[i].push(Ok(a)),
                    Ok(Event::Err(k)) => seen[i].push(Err(k)),
                    Ok(Event::Gone) => {
                        ended[i] = Some(std::mem::take(&mut seen[i]));
                        break;
                    }
                    Err(_) => break,
                }
            }
            let next = gate.0.lock().unwrap().pop();
            if let Some(f) = next {
                obs.count("resolver calls released");
                f()
            }
        }
        left.retain(|i| ended[*i].is_none());
        std::thread::sleep(Duration::from_micros(300));
    }
    for (i, (c, _, _)) in open.iter().enumerate() {
        let name = c.call.name();
        let v = match ended[i].take() {
            Some(v) => v,
            None => {
                obs.violation("no callback", json!({"operation": name, "after_s": WAIT.as_secs(), "context": "many operations waiting at once"}));
                continue;
            }
        };
        obs.eval(&format!("parked{}", c.shape));
        if v.len() != 1 {
            obs.violation("not exactly one callback", json!({"operation": name, "callbacks": v.len()}));
            continue;
        }
        obs.count("callbacks");
        let core = match c.call.core(&c.dr, &c.sr) {
            Ok(x) => x.map(|x| meaning(c, &x)).map_err(|e| e.kind()),
            Err(_) => continue,
        };
        let g = v.into_iter().next().unwrap().map(|x| meaning(c, &x));
        obs.check(g == core, "result differs beside waiting operations", || json!({"operation": name, "got": show(&g), "core": show(&core)}));
    }
}

/// The interface's own example resolvers answer like the core's.
fn examples(_: u64, r: &mut Rng, obs: &mut Obs) {
    let c = match case(r) {
        Some(x) => x,
        None => return obs.harness("case could not be set up"),
    };
    let mut docs: Vec<DIDDoc> = c.dr.docs.values().cloned().collect();
    docs.sort_by(|a, b| a.id.cmp(&b.id));
    r.shuffle(&mut docs);
    let mut secrets: Vec<Secret> = c.sr.secrets.values().cloned().collect();
    secrets.sort_by(|a, b| a.id.cmp(&b.id));
    r.shuffle(&mut secrets);
    if r.chance(1, 4) && !docs.is_empty() {
        let i = r.below(docs.len());
        let mut d = docs[i].clone();
        d.key_agreement.clear();
        d.authentication.clear();
        docs.insert(r.below(docs.len() + 1), d);
    }
    if r.chance(1, 4) {
        docs.truncate(r.below(docs.len() + 1));
    }
    if r.chance(1, 4) {
        secrets.truncate(r.below(secrets.len() + 1));
    }
    let dc = ffi::DIDComm::new(Box::new(ffi::ExampleDIDResolver::new(docs.clone())), Box::new(ffi::ExampleSecretsResolver::new(secrets.clone())));
    let name = c.call.name();
    let (_, w) = start(&c.call, &dc);
    let got = match one(obs, name, &w, &json!("example resolvers")) {
        Some(x) => x.map(|x| meaning(&c, &x)),
        None => return,
    };
    let want = match c.call.core(&CoreDids::new(docs), &CoreSecrets::new(secrets)) {
        Ok(x) => x.map(|x| meaning(&c, &x)).map_err(|e| e.kind()),
        Err(e) => return obs.harness(format!("{name}: core {e}")),
    };
    obs.eval(&format!("ex{}{}", c.shape, got.is_ok()));
    obs.count("operations over the example resolvers");
    obs.check(got == want, "example resolvers answer differently", || json!({"operation": name, "got": show(&got), "core": show(&want)}));
}

/// JSON values cross the boundary as text.
fn values(_: u64, r: &mut Rng, obs: &mut Obs) {
    use ffi::UniffiCustomTypeConverter as C;
    let v = gen::json(r, 3);
    let t = gen::restyle(&v, r, true);
    obs.eval(&format!("value{}", vcommon::cut(&t, 60)));
    match vcommon::guard(|| <ffi::JsonValue as C>::into_custom(t.clone())) {
        Ok(Ok(x)) => {
            obs.check(x == v, "JSON value changed", || json!({"text": t, "got": x}));
            match vcommon::guard(|| <ffi::JsonValue as C>::from_custom(x)) {
                Ok(s) => {
                    let back: std::result::Result<Value, _> = serde_json::from_str(&s);
                    obs.check(back.as_ref().ok() == Some(&v), "JSON value changed", || json!({"text": s, "want": v}));
                }
                Err(e) => obs.violation("panic", json!({"from_custom": v, "what": e.to_string()})),
            }
        }
        o => obs.violation("JSON value refused", json!({"text": t, "got": format!("{:?}", o.map(|x| x.map_err(|e| e.to_string())))})),
    }
    let mut b = t.clone();
    b.truncate(b.char_indices().nth(r.below(b.chars().count())).map(|x| x.0).unwrap_or(0));
    let valid = serde_json::from_str::<Value>(&b).is_ok();
    match vcommon::guard(|| <ffi::JsonValue as C>::into_custom(b.clone())) {
        Ok(x) => {
            obs.check(x.is_ok() == valid, "text that is no JSON accepted", || json!({"text": b}));
        }
        Err(e) => obs.violation("panic", json!({"into_custom": b, "what": e.to_string()})),
    }
}

// ---- completions that collide ----

/// Completes every handle from several threads at the same moment.
struct Storm {
    docs: HashMap<String, DIDDoc>,
    secrets: HashMap<String, Secret>,
    /// Which interface is stormed: DID resolver, secret, secret list.
    on: usize,
    /// What each thread does: the index of an error kind, or (beyond) success.
    acts: Vec<usize>,
    /// Per storm: the acts whose completion was accepted.
    won: Mutex<mpsc::Sender<Vec<usize>>>,
}
impl Storm {
    fn go<T: Clone + Send + Sync + 'static, H: Handle<T>>(&self, on: usize, h: Arc<H>, val: T) -> ErrorCode {
        if on != self.on {
            let _ = h.ok(val);
            return ErrorCode::Success;
        }
        let gate = AtomicUsize::new(0);
        let n = self.acts.len();
        let won: Vec<usize> = std::thread::scope(|s| {
            let hs: Vec<_> = self
                .acts
                .iter()
                .map(|a| {
                    let (h, gate, val) = (h.clone(), &gate, val.clone());
                    s.spawn(move || {
                        gate.fetch_add(1, Ordering::SeqCst);
                        let mut k = 0;
                        while gate.load(Ordering::SeqCst) < n {
                            k += 1;
                            if k % 4096 == 0 {
                                std::thread::yield_now()
                            }
                        }
                        let r = if *a < KINDS.len() { h.err(KINDS[*a].0) } else { h.ok(val) };
                        r.is_ok()
                    })
                })
                .collect();
            hs.into_iter().zip(&self.acts).filter_map(|(t, a)| t.join().unwrap().then_some(*a)).collect()
        });
        let _ = self.won.lock().unwrap().send(won);
        ErrorCode::Success
    }
}
struct StormDids(Arc<Storm>);
impl ffi::DIDResolver for StormDids {
    fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ErrorCode {
        self.0.go(0, cb, self.0.docs.get(&did).cloned())
    }
}
struct StormSecrets(Arc<Storm>);
impl ffi::SecretsResolver for StormSecrets {
    fn get_secret(&self, id: String, cb: Arc<ffi::OnGetSecretResult>) -> ErrorCode {
        self.0.go(1, cb, self.0.secrets.get(&id).cloned())
    }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<ffi::OnFindSecretsResult>) -> ErrorCode {
        self.0.go(2, cb, ids.into_iter().filter(|i| self.0.secrets.contains_key(i)).collect())
    }
}

fn storm(_: u64, r: &mut Rng, obs: &mut Obs) {
    let p = party(r, &[crate::refc::Crv::X25519]);
    let (tx, rx) = mpsc::channel();
    let on = r.below(3);
    let n = r.range(2, 3);
    let acts: Vec<usize> = match r.below(3) {
        // all succeed, all fail, mixed
        0 => vec![KINDS.len(); n],
        1 => (0..n).map(|_| r.below(KINDS.len())).collect(),
        _ => (0..n).map(|i| if i == 0 { KINDS.len() } else { r.below(KINDS.len()) }).collect(),
    };
    let st = Arc::new(Storm {
        docs: [(p.did.clone(), p.doc())].into_iter().collect(),
        secrets: p.all().map(|k| (k.kid.clone(), k.secret())).collect(),
        on,
        acts: acts.clone(),
        won: Mutex::new(tx),
    });
    let dc = ffi::DIDComm::new(Box::new(StormDids(st.clone())), Box::new(StormSecrets(st.clone())));
    let mut m = gmsg::message(r);
    m.from = None;
    m.from_prior = None;
    m.attachments = None;
    for round in 0..120 {
        let (cb, w) = Cb::new();
        dc.pack_signed(&m, p.did.clone(), Box::new(cb));
        let got = match w.all(WAIT) {
            Ok(g) => g,
            Err(_) => return obs.violation("operation never calls back", json!({"acts": acts, "interface": on})),
        };
        obs.check(got.len() == 1, "number of callbacks", || json!({"callbacks": got.len(), "acts": acts, "interface": on}));
        let Some(got) = got.into_iter().next() else { return };
        let mut all_ok = true;
        for won in rx.try_iter() {
            obs.count("collisions");
            let w = || json!({"acts": acts, "accepted": won, "interface": on, "round": round});
            if won.len() != 1 {
                return obs.violation("a handle accepted several completions or none", w());
            }
            if won[0] < KINDS.len() {
                all_ok = false;
                obs.check(matches!(&got, Err(k) if *k == KINDS[won[0]].0), "not the accepted completion", w);
            }
        }
        obs.check(!all_ok || got.is_ok(), "fails though every accepted completion was a success", || json!({"acts": acts, "interface": on, "got": format!("{got:?}")}));
        obs.eval(&format!("storm{on}{acts:?}"));
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Each judged execution is one operation of the callback interface (compiled from uniffi/src), over foreign resolvers that answer before returning, \
         from another thread, late, twice, in a race of two threads, with an error, with nothing, or never (letting go of the handle), compared with the core \
         library over the same answers: number of callbacks until the library releases the callback object, meaning of the result, error kind, and the \
         sequence of resolver calls. Distinct by operation, message and key shape, delivery plan and failing call.",
    );
    run.assume("uniffi's generated scaffolding (the C ABI) is replaced by a declaration-only stand-in; only the crate's own Rust code runs.");
    run.assume("An operation that has not called back 90 s after its last resolver answer counts as never calling back.");
    let n = run.cfg.n(6000, 120_000);
    run.cases("same answer, once", n, same);
    let n = run.cfg.n(24, 400);
    run.cases_on(2, "many waiting", n, parked);
    let n = run.cfg.n(2500, 40_000);
    run.cases("example resolvers", n, examples);
    let n = run.cfg.n(3000, 50_000);
    run.cases("json values", n, values);
    let n = run.cfg.n(240, 4000);
    run.cases_on(2, "colliding completions", n, storm);
    run.require("collisions", 10_000);
    run.require("callbacks", 3000);
    run.require("concurrent completions", 100);
    run.require("later completions refused", 500);
    run.require("operations with a failing resolver", 500);
    run.require("operations parked at a resolver", 200);
}
