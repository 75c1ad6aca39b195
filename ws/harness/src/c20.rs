//! C20: operations running at the same time each give the answer they give alone.
use crate::{
    calls::*,
    refc::Key,
    dc::{
        did::{resolvers::ExampleDIDResolver, DIDDoc, DIDResolver},
        error::{ErrorKind, Result},
        secrets::{resolvers::ExampleSecretsResolver, Secret, SecretsResolver},
    },
    world::*,
};
use async_trait::async_trait;
use serde_json::{json, Value};
use std::{
    collections::{BTreeSet, HashMap, VecDeque},
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Barrier, Mutex,
    },
    task::{Context, Poll, Waker},
};
use vcommon::{fnv, guard, Flag, Obs, Rng, Runner};

type Alone = std::result::Result<Value, ErrorKind>;
type Fut<'a> = Pin<Box<dyn Future<Output = Result<Answer>> + Send + 'a>>;

/// Resolvers without any synchronisation of their own, so that none hides a race of the library's.
pub struct Quiet {
    docs: HashMap<String, DIDDoc>,
    secrets: HashMap<String, Secret>,
    suspend: usize,
}
impl Quiet {
    async fn pause(&self, s: &str) {
        vcommon::suspend(fnv(s.as_bytes()) as usize % (self.suspend + 1)).await
    }
}
#[async_trait]
impl DIDResolver for Quiet {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        self.pause(did).await;
        Ok(self.docs.get(did).cloned())
    }
}
#[async_trait]
impl SecretsResolver for Quiet {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>> {
        self.pause(id).await;
        Ok(self.secrets.get(id).cloned())
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        self.pause(ids.first().unwrap_or(&"")).await;
        Ok(ids.iter().copied().filter(|i| self.secrets.contains_key(*i)).collect())
    }
}

struct Group {
    cases: Vec<Case>,
    docs: Vec<DIDDoc>,
    secrets: Vec<Secret>,
    alone: Vec<Alone>,
}

fn canon(c: &Case, x: Result<Answer>) -> Alone {
    x.map(|a| meaning(c, &a)).map_err(|e| e.kind())
}

/// Several operations over one set of documents and one set of secrets, and what each gives alone.
fn group(r: &mut Rng, lo: usize, hi: usize) -> Option<Group> {
    let n = r.range(lo, hi);
    let mut cases: Vec<Case> = vec![];
    while cases.len() < n {
        let c = case(r)?;
        if r.chance(1, 4) {
            // the same operation more than once
            cases.push(Case { s: c.s.clone(), call: c.call.clone(), dr: c.dr.clone(), sr: c.sr.clone(), shape: c.shape.clone() });
        }
        cases.push(c);
    }
    let mut docs: HashMap<String, DIDDoc> = HashMap::new();
    let mut secrets: HashMap<String, Secret> = HashMap::new();
    for c in &cases {
        docs.extend((*c.dr.docs).clone());
        secrets.extend((*c.sr.secrets).clone());
    }
    let (mut docs, mut secrets): (Vec<_>, Vec<_>) = (docs.into_values().collect(), secrets.into_values().collect());
    docs.sort_by(|a, b| a.id.cmp(&b.id));
    secrets.sort_by(|a, b| a.id.cmp(&b.id));
    r.shuffle(&mut docs);
    r.shuffle(&mut secrets);
    let (dr, sr) = (Dr::of(docs.clone()), Sr::of(secrets.clone()));
    for c in &mut cases {
        c.dr = dr.clone();
        c.sr = sr.clone();
    }
    let mut alone = vec![];
    for c in &cases {
        alone.push(canon(c, c.call.core(&dr, &sr).ok()?));
    }
    Some(Group { cases, docs, secrets, alone })
}

fn short(x: &Alone) -> String {
    vcommon::cut(&format!("{x:?}"), 1200)
}

fn judge(obs: &mut Obs, g: &Group, i: usize, got: std::result::Result<Result<Answer>, vcommon::Abnormal>, how: &str, epks: &mut Vec<String>) {
    let name = g.cases[i].call.name();
    obs.count("results compared");
    match got {
        Err(e) => obs.violation("operation fails abnormally beside others", json!({"operation": name, "how": how, "what": e.to_string()})),
        Ok(x) => {
            if let Ok(a) = &x {
                epks.extend(a.text.as_deref().and_then(epk));
            }
            let got = canon(&g.cases[i], x);
            obs.check(got == g.alone[i], "result differs from the result alone", || json!({"operation": name, "how": how, "got": short(&got), "alone": short(&g.alone[i]), "case": g.cases[i].s.brief()}));
        }
    }
}

/// The ephemeral key of the outermost encryption layer.
fn epk(t: &str) -> Option<String> {
    let v: Value = serde_json::from_str(t).ok()?;
    let p = crate::refc::unb64(v["protected"].as_str()?)?;
    let p: Value = serde_json::from_slice(&p).ok()?;
    p.get("epk").map(|e| e.to_string())
}

fn distinct_keys(obs: &mut Obs, mut epks: Vec<String>, how: &str) {
    let n = epks.len();
    epks.sort();
    epks.dedup();
    obs.countn("ephemeral keys of concurrent operations", n as u64);
    obs.check(epks.len() == n, "concurrent operations share an ephemeral key", || json!({"how": how, "keys": n, "distinct": epks.len()}));
}

/// One thread, a scheduler that picks which operation goes on at every suspension; some are abandoned part way.
fn interleaved(_: u64, r: &mut Rng, obs: &mut Obs) {
    let g = match group(r, 2, 7) {
        Some(g) => g,
        None => return obs.harness("group could not be set up"),
    };
    let ctl = Arc::new(Ctl::default());
    let (dr, sr) = (Dr::of(g.docs.clone()).with(&ctl), Sr::of(g.secrets.clone()).with(&ctl));
    let n = g.cases.len();
    let mut futs: Vec<Option<Fut>> = g.cases.iter().map(|c| Some(Box::pin(c.call.run(&dr, &sr)) as Fut)).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let abandon: Vec<usize> = (0..n).map(|_| if r.chance(1, 4) { r.below(12) } else { usize::MAX }).collect();
    let mut polls = vec![0usize; n];
    let mut order = vec![];
    let mut out: Vec<Option<std::result::Result<Result<Answer>, vcommon::Abnormal>>> = (0..n).map(|_| None).collect();
    let sticky = r.below(4);
    let mut last = 0;
    loop {
        let ready: Vec<usize> = (0..n).filter(|i| futs[*i].is_some() && flags[*i].0.load(Ordering::SeqCst)).collect();
        if ready.is_empty() {
            break;
        }
        let i = if ready.contains(&last) && r.below(4) < sticky { last } else { *r.pick(&ready) };
        last = i;
        order.push(i as u8);
        if polls[i] == abandon[i] {
            futs[i] = None;
            obs.count("operations abandoned");
            continue;
        }
        polls[i] += 1;
        ctl.suspend.store(r.below(3), Ordering::SeqCst);
        flags[i].0.store(false, Ordering::SeqCst);
        let w = Waker::from(flags[i].clone());
        let f = futs[i].as_mut().unwrap();
        match guard(|| f.as_mut().poll(&mut Context::from_waker(&w))) {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(x)) => {
                out[i] = Some(Ok(x));
                futs[i] = None;
            }
            Err(e) => {
                out[i] = Some(Err(e));
                futs[i] = None;
            }
        }
    }
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    obs.countn("steps scheduled", order.len() as u64);
    obs.countn("switches between operations", switches as u64);
    let kinds: BTreeSet<_> = g.cases.iter().map(|c| c.call.name()).collect();
    obs.eval(&format!("{kinds:?}{order:?}"));
    obs.sample(|| json!({"operations": g.cases.iter().map(|c| c.call.name()).collect::<Vec<_>>(), "schedule": order, "abandoned": abandon.iter().filter(|a| **a != usize::MAX).count()}));
    let mut epks = vec![];
    for i in 0..n {
        if futs[i].is_some() {
            obs.violation("operation never completes beside others", json!({"operation": g.cases[i].call.name(), "polls": polls[i]}));
        } else if let Some(x) = out[i].take() {
            judge(obs, &g, i, x, "interleaved on one thread", &mut epks);
        }
    }
    drop(futs);
    distinct_keys(obs, epks, "interleaved on one thread");
    // what was abandoned leaves nothing behind: the same operation once more, over the same resolvers
    let mut epks = vec![];
    ctl.suspend.store(0, Ordering::SeqCst);
    for i in (0..n).filter(|i| abandon[*i] != usize::MAX) {
        let x = g.cases[i].call.core(&dr, &sr);
        judge(obs, &g, i, x, "again after being abandoned", &mut epks);
    }
}

/// Operations on threads of their own over shared resolvers.
fn threads(_: u64, r: &mut Rng, obs: &mut Obs) {
    let g = match group(r, 3, 6) {
        Some(g) => g,
        None => return obs.harness("group could not be set up"),
    };
    let n = g.cases.len();
    let example = r.bool();
    let rounds = r.range(1, 3);
    let quiet = Quiet { docs: g.docs.iter().map(|d| (d.id.clone(), d.clone())).collect(), secrets: g.secrets.iter().map(|s| (s.id.clone(), s.clone())).collect(), suspend: r.below(3) };
    let (ed, es) = (ExampleDIDResolver::new(g.docs.clone()), ExampleSecretsResolver::new(g.secrets.clone()));
    let bar = Barrier::new(n);
    let res: Vec<Vec<std::result::Result<Result<Answer>, vcommon::Abnormal>>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..n)
            .map(|i| {
                let (g, bar, quiet, ed, es) = (&g, &bar, &quiet, &ed, &es);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        bar.wait();
                        (0..rounds).map(|_| if example { g.cases[i].call.core(ed, es) } else { g.cases[i].call.core(quiet, quiet) }).collect()
                    })
                    .unwrap()
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    obs.eval(&format!("{}{:?}", example, g.cases.iter().map(|c| &c.shape).collect::<Vec<_>>()));
    obs.countn("threads", n as u64);
    let mut epks = vec![];
    for (i, v) in res.into_iter().enumerate() {
        for x in v {
            judge(obs, &g, i, x, if example { "threads, example resolvers" } else { "threads" }, &mut epks);
        }
    }
    distinct_keys(obs, epks, "threads");
}

/// Far more at once than there are cores: on threads of their own, or begun and not yet done on one thread.
fn crowd(c: u64, r: &mut Rng, obs: &mut Obs) {
    let mut g = match group(r, 2, 4) {
        Some(g) => g,
        None => return obs.harness("group could not be set up"),
    };
    // a few of them, again and again
    let few = r.range(1, 3);
    g.cases.truncate(few);
    let n = g.cases.len();
    let mut epks = vec![];
    let name = |i: usize| g.cases[i].call.name();
    if c % 2 == 0 {
        for x in &mut g.cases {
            if let Call::Enc(m, ..) = &mut x.call {
                // long enough to be met by others
                m.body = json!({"a": "x".repeat(300_000)});
            }
        }
        let (dr, sr) = (Dr::of(g.docs.clone()), Sr::of(g.secrets.clone()));
        g.alone = vec![];
        for x in &g.cases {
            match x.call.core(&dr, &sr) {
                Ok(a) => g.alone.push(canon(x, a)),
                Err(e) => return obs.harness(&format!("alone: {e}")),
            }
        }
        let many = *r.pick(&[16, 32, 64]);
        let quiet = Quiet { docs: g.docs.iter().map(|d| (d.id.clone(), d.clone())).collect(), secrets: g.secrets.iter().map(|s| (s.id.clone(), s.clone())).collect(), suspend: 0 };
        let bar = Barrier::new(many);
        let (gr, qr, br) = (&g, &quiet, &bar);
        let res: Vec<_> = std::thread::scope(|s| {
            let h: Vec<_> = (0..many)
                .map(|i| {
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(s, move || {
                            br.wait();
                            gr.cases[i % n].call.core(qr, qr)
                        })
                        .unwrap()
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        obs.countn("threads", many as u64);
        for (i, x) in res.into_iter().enumerate() {
            judge(obs, &g, i % n, x, "a crowd of threads", &mut epks);
        }
    } else {
        let many = *r.pick(&[100, 400, 700]);
        let ctl = Arc::new(Ctl::default());
        ctl.suspend.store(1, Ordering::SeqCst);
        let (dr, sr) = (Dr::of(g.docs.clone()).with(&ctl), Sr::of(g.secrets.clone()).with(&ctl));
        let mut futs: Vec<Option<Fut>> = (0..many).map(|i| Some(Box::pin(g.cases[i % n].call.run(&dr, &sr)) as Fut)).collect();
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let mut left = many;
        for _round in 0..2000 {
            if left == 0 {
                break;
            }
            for i in 0..many {
                let Some(f) = futs[i].as_mut() else { continue };
                let w = Waker::from(flag.clone());
                let x = match guard(|| f.as_mut().poll(&mut Context::from_waker(&w))) {
                    Ok(Poll::Pending) => continue,
                    Ok(Poll::Ready(x)) => Ok(x),
                    Err(e) => Err(e),
                };
                futs[i] = None;
                left -= 1;
                judge(obs, &g, i % n, x, "one of hundreds on one thread", &mut epks);
            }
        }
        if left > 0 {
            obs.violation("operation never completes beside others", json!({"operations": (0..n).map(name).collect::<Vec<_>>(), "left": left}));
        }
        obs.countn("in flight on one thread", many as u64);
    }
    obs.eval(&format!("crowd{:?}", g.cases.iter().map(|c| &c.shape).collect::<Vec<_>>()));
    distinct_keys(obs, epks, "a crowd");
}

/// Operations that move between threads at every suspension, as under a work-stealing executor.
fn migrating(_: u64, r: &mut Rng, obs: &mut Obs) {
    let g = match group(r, 3, 7) {
        Some(g) => g,
        None => return obs.harness("group could not be set up"),
    };
    let n = g.cases.len();
    let quiet = Quiet { docs: g.docs.iter().map(|d| (d.id.clone(), d.clone())).collect(), secrets: g.secrets.iter().map(|s| (s.id.clone(), s.clone())).collect(), suspend: 3 };
    let futs: VecDeque<(usize, usize, usize, Fut)> = (0..n).map(|i| (i, usize::MAX, 0, Box::pin(g.cases[i].call.run(&quiet, &quiet)) as Fut)).collect();
    let queue = Mutex::new(futs);
    let left = AtomicUsize::new(n);
    let moves = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, std::result::Result<Result<Answer>, vcommon::Abnormal>)>> = Default::default();
    let workers = r.range(2, 3);
    std::thread::scope(|s| {
        for t in 0..workers {
            let (queue, left, out, moves) = (&queue, &left, &out, &moves);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    while left.load(Ordering::SeqCst) > 0 {
                        let next = queue.lock().unwrap().pop_front();
                        let (i, on, k, mut f) = match next {
                            Some(x) => x,
                            None => {
                                std::thread::yield_now();
                                continue;
                            }
                        };
                        if on != usize::MAX && on != t {
                            moves.fetch_add(1, Ordering::SeqCst);
                        }
                        let flag = Arc::new(Flag(AtomicBool::new(false)));
                        let w = Waker::from(flag.clone());
                        let x = match guard(|| f.as_mut().poll(&mut Context::from_waker(&w))) {
                            Ok(Poll::Pending) if k < 5000 => {
                                queue.lock().unwrap().push_back((i, t, k + 1, f));
                                continue;
                            }
                            Ok(Poll::Pending) => Err(vcommon::Abnormal::Stuck),
                            Ok(Poll::Ready(x)) => Ok(x),
                            Err(e) => Err(e),
                        };
                        out.lock().unwrap().push((i, x));
                        left.fetch_sub(1, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
    });
    obs.eval(&format!("m{:?}", g.cases.iter().map(|c| &c.shape).collect::<Vec<_>>()));
    obs.countn("moves between threads", moves.load(Ordering::SeqCst) as u64);
    let mut epks = vec![];
    let out = std::mem::take(&mut *out.lock().unwrap());
    for (i, x) in out {
        judge(obs, &g, i, x, "moving between threads", &mut epks);
    }
    distinct_keys(obs, epks, "moving between threads");
}

/// What `f` gives in a process of its own, which ends without leaving anything behind in this one.
fn apart(f: impl FnOnce() -> Option<Value>) -> std::result::Result<Option<Value>, String> {
    extern "C" {
        fn fork() -> i32;
        fn pipe(p: *mut i32) -> i32;
        fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
    }
    use std::{
        io::{Read, Write},
        os::fd::FromRawFd,
    };
    let mut p = [0i32; 2];
    unsafe {
        if pipe(p.as_mut_ptr()) != 0 {
            return Err("no pipe".into());
        }
        let pid = fork();
        if pid < 0 {
            return Err("no process".into());
        }
        let (mut rd, mut wr) = (std::fs::File::from_raw_fd(p[0]), std::fs::File::from_raw_fd(p[1]));
        if pid == 0 {
            drop(rd);
            let ok = match guard(f) {
                Ok(v) => wr.write_all(serde_json::to_string(&v).unwrap().as_bytes()).is_ok(),
                Err(e) => wr.write_all(serde_json::to_string(&json!({"abnormal": e.to_string()})).unwrap().as_bytes()).is_ok(),
            };
            drop(wr);
            _exit(if ok { 0 } else { 1 });
        }
        drop(wr);
        let mut s = vec![];
        let read = rd.read_to_end(&mut s);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 || read.is_err() {
            return Err(format!("process ended with status {st}"));
        }
        serde_json::from_slice(&s).map_err(|e| e.to_string())
    }
}

/// The same parties with something about one of them changed.
fn other_world(r: &mut Rng, parties: &[Party], secrets: &HashMap<String, Secret>, asked: &[String]) -> (Vec<Party>, Vec<String>, Vec<String>, String) {
    let mut ps = parties.to_vec();
    let (mut no_doc, mut no_secret) = (vec![], vec![]);
    let used: Vec<usize> = (0..ps.len()).filter(|i| asked.iter().any(|a| a.contains(&ps[*i].did))).collect();
    let i = if used.is_empty() || r.chance(1, 10) { r.below(ps.len()) } else { *r.pick(&used) };
    let p = &mut ps[i];
    let what = match r.below(8) {
        0 | 1 => {
            no_doc.push(p.did.clone());
            "document unknown"
        }
        2 | 3 => {
            for k in p.ka.iter_mut().chain(&mut p.auth).chain(&mut p.extra) {
                k.key = Key::gen(r, k.key.crv);
            }
            "keys replaced"
        }
        4 if !p.ka.is_empty() => {
            let n = r.below(p.ka.len());
            let k = p.ka.remove(n);
            p.extra.push(k);
            "a key is for key agreement no more"
        }
        5 if !p.auth.is_empty() => {
            let n = r.below(p.auth.len());
            let k = p.auth.remove(n);
            p.extra.push(k);
            "a key is for authentication no more"
        }
        6 => {
            p.services = if p.services.is_empty() { parties.iter().flat_map(|p| p.services.clone()).take(1).collect() } else { vec![] };
            "services changed"
        }
        _ => {
            let mut ids: Vec<_> = secrets.keys().cloned().collect();
            ids.sort();
            let near: Vec<_> = ids.iter().filter(|i| asked.iter().any(|a| a.contains(i.as_str()))).cloned().collect();
            if !near.is_empty() {
                ids = near;
            }
            if !ids.is_empty() {
                no_secret.push(r.pick(&ids).clone());
            }
            "a secret gone"
        }
    };
    (ps, no_doc, no_secret, format!("{what} ({i})"))
}

/// The same operation in two worlds that disagree about something, one after the other: neither may remember the other.
fn histories(_: u64, r: &mut Rng, obs: &mut Obs) {
    let seed = r.clone();
    let text = match apart(|| {
        let mut text = None;
        case_with(&mut seed.clone(), &mut |f| {
            text = f();
            text.clone()
        });
        Some(json!(text))
    }) {
        Ok(t) => t.and_then(|t| t.as_str().map(|s| s.to_string())),
        Err(e) => return obs.harness(&e),
    };
    let c = match case_with(r, &mut |_| text.clone()) {
        Some(c) => c,
        None => return,
    };
    // what the operation asks for
    let asked: Vec<String> = match apart(|| {
        let ctl = Arc::new(Ctl::default());
        let _ = c.call.core(&c.dr.with(&ctl), &c.sr.with(&ctl));
        let l = ctl.log.lock().unwrap().clone();
        Some(json!(l.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()))
    }) {
        Ok(v) => serde_json::from_value(v.unwrap_or(json!([]))).unwrap_or_default(),
        x => return obs.violation("operation ends its process", json!({"operation": c.call.name(), "how": format!("{x:?}")})),
    };
    let (ps, no_doc, no_secret, what) = other_world(r, &c.s.parties, &c.sr.secrets, &asked);
    let mut s2 = c.s.clone();
    s2.parties = ps;
    let dr2 = Dr::of(s2.parties.iter().filter(|p| !no_doc.contains(&p.did)).map(|p| p.doc()));
    let kept: Vec<&KeyEntry> = s2.parties.iter().flat_map(|p| p.all()).filter(|k| c.sr.secrets.contains_key(&k.kid) && !no_secret.contains(&k.kid)).collect();
    let sr2 = Sr::keys(kept);
    // answers are opened with everything known
    let open = [c.s.clone(), s2].map(|s| Case { dr: s.dr(), s, call: c.call.clone(), sr: c.sr.clone(), shape: c.shape.clone() });
    let worlds = [(&c.dr, &c.sr), (&dr2, &sr2)];
    let go = |order: &[usize]| {
        apart(|| {
            let v: Vec<Value> = order
                .iter()
                .map(|w| match c.call.core(worlds[*w].0, worlds[*w].1) {
                    Ok(x) => canon(&open[*w], x).unwrap_or_else(|k| json!(format!("{k:?}"))),
                    Err(e) => json!({"abnormal": e.to_string()}),
                })
                .collect();
            Some(json!(v))
        })
    };
    let cold = match (go(&[0]), go(&[1])) {
        (Ok(Some(a)), Ok(Some(b))) => [a[0].clone(), b[0].clone()],
        x => return obs.violation("operation ends its process", json!({"operation": c.call.name(), "how": format!("{x:?}")})),
    };
    obs.eval(&format!("{}{what}{}", c.shape, cold[0] == cold[1]));
    obs.count(if cold[0] == cold[1] { "worlds give the same result" } else { "worlds give different results" });
    for order in [&[0, 1, 0][..], &[1, 0, 0, 1]] {
        match go(order) {
            Ok(Some(Value::Array(got))) => {
                for (n, w) in order.iter().enumerate() {
                    obs.count("results compared");
                    if got.get(n) != Some(&cold[*w]) {
                        return obs.violation(
                            "result depends on operations before",
                            json!({"operation": c.call.name(), "between the worlds": what, "worlds in order": order, "differs at": n, "got": vcommon::cut(&format!("{:?}", got.get(n)), 900), "alone": vcommon::cut(&cold[*w].to_string(), 900), "case": c.s.brief()}),
                        );
                    }
                }
            }
            x => return obs.violation("operation ends its process", json!({"operation": c.call.name(), "how": format!("{x:?}")})),
        }
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Each judged execution is a group of operations (pack, unpack, from_prior, wrap_in_forward; one in four arguments wrong) over shared documents and secrets, \
         run under one seeded schedule: interleaved on one thread at every resolver call with some abandoned part way, on threads started together, or moving between threads. \
         Every operation's outcome is compared with its outcome alone, packed texts by what they open to. Distinct by schedule (one thread) or by operations.",
    );
    run.assume("Operations on the same arguments are compared up to the random parts of packed texts, which only have to differ.");
    // before anything ran in this process
    if std::env::var_os("TSAN_OPTIONS").is_none() {
        let n = run.cfg.n(450, 12_000);
        run.cases_on(1, "histories", n, histories);
    }
    let n = run.cfg.n(1500, 30_000);
    run.cases("interleaved", n, interleaved);
    let t = (run.cfg.threads / 3).max(1);
    let n = run.cfg.n(500, 10_000);
    run.cases_on(t, "threads", n, threads);
    let n = run.cfg.n(400, 8_000);
    run.cases_on(t, "moving between threads", n, migrating);
    let n = run.cfg.n(24, 1_000);
    run.cases_on(1, "crowd", n, crowd);
    run.require("in flight on one thread", 600);
    run.require("switches between operations", 3000);
    run.require("operations abandoned", 120);
    run.require("moves between threads", 500);
    run.require("results compared", 3000);
}
