//! C07: freshness of keys, nonces and ids over histories of packing.
use crate::{c01::must_pack, gmsg, refc::*, refjose::*, scn::*, world::*};
use askar_crypto::monitor::{self, Event};
use serde_json::{json, Value};
use std::{
    collections::{HashMap, HashSet},
    sync::Mutex,
};
use vcommon::{Obs, Rng, Runner};

/// Everything ever seen in this process, over all threads.
#[derive(Default)]
struct History {
    seen: Mutex<HashMap<(&'static str, Vec<u8>), String>>,
    /// Values per byte position.
    spread: Mutex<HashMap<(&'static str, usize), HashSet<u8>>>,
    count: Mutex<HashMap<&'static str, u64>>,
}

impl History {
    fn fresh(&self, kind: &'static str, v: &[u8], at: &str) -> Result<(), String> {
        let mut s = self.seen.lock().unwrap();
        if let Some(old) = s.insert((kind, v.to_vec()), at.to_string()) {
            return Err(format!("seen at {old} and again at {at}"));
        }
        drop(s);
        *self.count.lock().unwrap().entry(kind).or_default() += 1;
        let mut p = self.spread.lock().unwrap();
        for (i, b) in v.iter().enumerate() {
            let e = p.entry((kind, i)).or_default();
            if e.len() < 256 {
                e.insert(*b);
            }
        }
        Ok(())
    }
}

fn case(h: &History, tag: &str, r: &mut Rng, obs: &mut Obs, repeats: usize) {
    let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
    let s = scn(r, &Knobs { mode, small: true, ..Default::default() });
    for rep in 0..repeats {
        monitor::start();
        let p = must_pack(&s, obs);
        let ev = monitor::take();
        let p = match p {
            Some(p) => p,
            None => return,
        };
        let w = |x: Value| json!({"detail": x, "scenario": s.brief(), "packed": p.text, "repetition": rep});
        let at = |l: &str| format!("{tag}/{}/{rep}/{l}", obs.case);
        let list = std::cell::RefCell::new(Vec::<(&'static str, String)>::new());
        let fresh = |k: &'static str, v: &[u8], l: &str| {
            if let Err(e) = h.fresh(k, v, &at(l)) {
                list.borrow_mut().push((k, e))
            }
        };
        // on the wire
        let x = match s.peel(&p.text, rep) {
            Ok(x) => x,
            Err(_) => {
                obs.count("not opened (judged elsewhere)");
                return;
            }
        };
        for (i, o) in x.hops.iter().map(|x| &x.0).chain(&x.inner).enumerate() {
            let l = format!("layer {i}");
            fresh("content key", &o.cek, &l);
            fresh("nonce", &o.iv, &l);
            fresh("ephemeral key", &o.epk.pk[..32], &l);
        }
        for (i, f) in x.hops.iter().map(|x| &x.1).enumerate() {
            fresh("forward message id", f["id"].as_str().unwrap_or("").as_bytes(), &format!("forward {i}"));
        }
        // at the crypto boundary: secret side, and the keys and nonces really used
        let mut content = 0;
        let ceks: HashSet<&Vec<u8>> = x.hops.iter().map(|x| &x.0).chain(&x.inner).map(|o| &o.cek).collect();
        let mut uses: HashSet<(&Vec<u8>, &Vec<u8>)> = HashSet::new();
        for e in &ev {
            match e {
                Event::KeyGen { alg, secret, .. } => fresh("generated secret", secret, alg),
                Event::Nonce { nonce, .. } => fresh("generated nonce", nonce, "rng"),
                Event::Encrypt { key, nonce, .. } if ceks.contains(key) => {
                    content += 1;
                    if !uses.insert((key, nonce)) {
                        list.borrow_mut().push(("key and nonce pair", "used for two encryptions of one call".into()))
                    }
                }
                _ => {}
            }
        }
        obs.countn("crypto boundary events", ev.len() as u64);
        obs.countn("encryption layers", (x.hops.len() + x.inner.len()) as u64);
        obs.countn("content encryptions", content);
        obs.eval(&format!("{}{rep}", s.shape()));
        for (k, e) in list.into_inner() {
            obs.violation(format!("{k} reused"), w(json!(e)));
        }
    }
    obs.sample(|| json!({"scenario": s.shape(), "repetitions": repeats}));
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Random messages are packed one to four times each, unchanged, on eight threads; every layer is opened by an independent
         implementation and its content key, nonce and ephemeral key, and every secret and nonce generated at the crypto boundary, must
         never have been seen before in the whole history of the process; so must every forward message id. Over the history every byte
         position of each must have taken nearly all values. Distinct by scenario shape and repetition.",
    );
    run.assume("The random source is the operating system's, through the askar-crypto stand-in; its own quality is not judged.");
    let h = History::default();
    let n = run.cfg.n(2500, 100_000);
    run.cases("history", n, |c, r, obs| case(&h, "history", r, obs, 1 + (c % 4) as usize));
    // one identical message, many times, from all threads
    let n = run.cfg.n(400, 10_000);
    let seed = run.cfg.seed;
    run.cases("identical", n, |c, _, obs| {
        let mut r = Rng::new(seed ^ (c % 4));
        case(&h, "identical", &mut r, obs, 3)
    });
    let (spread, count) = (h.spread.into_inner().unwrap(), h.count.into_inner().unwrap());
    run.single("spread", |_, obs| {
        for (k, n) in &count {
            obs.countn(&format!("distinct {k}s"), *n);
        }
        for ((k, i), set) in &spread {
            // forward ids are text; a position of any other value takes 256 values
            let n = count.get(k).copied().unwrap_or(0);
            let longest = spread.keys().filter(|x| x.0 == *k).map(|x| x.1).max().unwrap();
            if n < 2500 || *k == "forward message id" || *i + 1 > longest {
                continue;
            }
            // positions only the longer kinds have are seen less often, and clamped scalars have fixed bits
            if *i < 24 {
                obs.eval(&format!("{k}{i}"));
                obs.check(set.len() > 24, "a byte of a generated value hardly varies", || json!({"value": k, "position": i, "different values": set.len(), "of": n}));
            }
        }
    });
    run.require("encryption layers", 2000);
    run.require("content encryptions", 2000);
}
