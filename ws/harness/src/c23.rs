//! C23: no secret byte leaves through packed text, metadata, errors or standard output.
use crate::{
    c06::{forms, views},
    c10, c17,
    dc::{
        did::DIDDoc,
        error::{Error, ErrorKind, Result},
        secrets::Secret,
        FromPrior, Message,
    },
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use askar_crypto::monitor::{self, Event};
use serde_json::{json, Value};
use std::{collections::HashMap, sync::Arc};
use vcommon::{gen, Abnormal, Obs, Rng, Runner};

/// Every 8-byte beginning of a pattern, for one pass over a text.
#[derive(Default)]
pub struct Searcher {
    map: HashMap<[u8; 8], Vec<(String, Vec<u8>)>>,
    pub secrets: usize,
}

impl Searcher {
    fn pattern(&mut self, what: &str, p: Vec<u8>) {
        if p.len() >= 8 {
            let mut h = [0; 8];
            h.copy_from_slice(&p[..8]);
            let v = self.map.entry(h).or_default();
            if !v.iter().any(|x| x.1 == p) {
                v.push((what.into(), p));
            }
        }
    }
    /// Half a key is a leak too: every 16 bytes count.
    pub fn secret(&mut self, what: &str, s: &[u8]) {
        if s.len() < 16 || s.iter().all(|b| *b == 0) {
            return;
        }
        self.secrets += 1;
        for c in s.chunks_exact(16) {
            if c.iter().filter(|b| **b == 0).count() > 6 {
                continue; // too plain to be sure of
            }
            for f in forms(c) {
                self.pattern(what, f);
            }
            let d = format!("{c:?}");
            self.pattern(what, d[1..d.len() - 1].as_bytes().to_vec());
            let d = format!("{c:x?}");
            self.pattern(what, d[1..d.len() - 1].as_bytes().to_vec());
        }
        self.pattern(what, bs58::encode(s).into_vec());
    }
    pub fn key(&mut self, what: &str, k: &Key) {
        self.secret(what, &k.sk);
        let mut pair = k.sk.clone();
        pair.extend(&k.pk);
        for b in [&k.sk, &pair] {
            self.pattern(what, bs58::encode(b).into_vec());
            for c in [0x1300, 0x1302, 0x1306] {
                self.pattern(what, multibase(c, b).into_bytes());
            }
        }
        if k.crv == Crv::Ed25519 {
            self.secret(&format!("{what} (expanded)"), &openssl::hash::hash(openssl::hash::MessageDigest::sha512(), &k.sk).unwrap());
        }
    }
    pub fn events(&mut self, ev: &[Event], statics: &[&Key]) {
        let mut eph = vec![];
        for e in ev {
            match e {
                Event::KeyGen { alg, secret, .. } => {
                    self.secret(&format!("generated {alg} key"), secret);
                    for c in [Crv::X25519, Crv::P256] {
                        if secret.len() == 32 {
                            if let Some(k) = Key::from_secret(c, secret) {
                                eph.push(k);
                            }
                        }
                    }
                }
                Event::Derive { out, .. } => self.secret("key encryption key", out),
                Event::Encrypt { key, .. } | Event::Decrypt { key, .. } => self.secret("content key", key),
                _ => {}
            }
        }
        for a in &eph {
            for b in statics {
                if let Some(z) = a.ecdh(b) {
                    self.secret("shared secret", &z);
                }
            }
        }
    }
    pub fn find(&self, text: &[u8]) -> Option<(String, String)> {
        let mut v = vec![];
        views(text, 3, &mut v);
        for t in &v {
            for w in t.windows(8) {
                let mut h = [0; 8];
                h.copy_from_slice(w);
                if let Some(c) = self.map.get(&h) {
                    let at = w.as_ptr() as usize - t.as_ptr() as usize;
                    if let Some(x) = c.iter().find(|x| t[at..].starts_with(&x.1)) {
                        return Some((x.0.clone(), String::from_utf8_lossy(&x.1).into_owned()));
                    }
                }
            }
        }
        None
    }
}

fn error_texts(e: &Error) -> String {
    let mut t = format!("{e}\n{e:?}\n{e:#?}");
    let mut s: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    while let Some(x) = s {
        t += &format!("\n{x}\n{x:?}");
        s = x.source();
    }
    t
}

fn look(obs: &mut Obs, s: &Searcher, where_: &str, text: &str, ctx: impl FnOnce() -> Value) {
    obs.count(where_);
    obs.countn("bytes searched", text.len() as u64);
    if let Some((what, p)) = s.find(text.as_bytes()) {
        obs.violation(format!("{what} in {where_}"), json!({"found": p, "text": vcommon::cut(text, 4000), "context": ctx()}));
    }
}

/// Everything a caller can see of an answer.
fn packed(r: &mut Rng, obs: &mut Obs) {
    let small = r.bool();
    let s = scn(r, &Knobs { small, ..Default::default() });
    let (dr, sr) = (s.dr(), s.sender_sr());
    monitor::start();
    let mut texts: Vec<(&str, String)> = vec![];
    let p = crate::world::run(async {
        Ok(match s.mode {
            Mode::Plain => (s.msg.pack_plaintext(&dr).await?, String::new()),
            Mode::Signed => {
                let (t, m) = s.msg.pack_signed(s.sign_by.as_deref().unwrap(), &dr, &sr).await?;
                (t, format!("{m:?} {m:#?} {}", serde_json::to_string(&m).unwrap()))
            }
            _ => {
                let (t, m) = s.msg.pack_encrypted(&s.to, s.from.as_deref(), s.sign_by.as_deref(), &dr, &sr, &s.opts).await?;
                (t, format!("{m:?} {m:#?} {}", serde_json::to_string(&m).unwrap()))
            }
        })
    });
    let p = match p {
        Ok(Ok(p)) => p,
        o => {
            monitor::take();
            return obs.violation("valid message not packed", json!({"got": format!("{o:?}"), "scenario": s.brief()}));
        }
    };
    texts.push(("packed text", p.0.clone()));
    texts.push(("packing metadata", p.1));
    let rsr = Sr::party(&s.parties[1]);
    if let Ok(inner) = s.deliver(&p.0) {
        let o = opts(r.bool(), r.bool());
        match unpack(&inner, &dr, &rsr, &o) {
            Ok(Ok((m, meta))) => {
                texts.push(("unpacked message", format!("{m:?} {m:#?} {}", serde_json::to_string(&m).unwrap())));
                texts.push(("unpacking metadata", format!("{meta:?} {meta:#?} {}", serde_json::to_string(&meta).unwrap())));
            }
            o => obs.violation("valid message not unpacked", json!(format!("{o:?}"))),
        }
    }
    let ev = monitor::take();
    let mut se = Searcher::default();
    for (i, p) in s.parties.iter().enumerate() {
        for k in p.all() {
            se.key(&format!("private key of party {i}"), &k.key);
        }
    }
    let statics: Vec<&Key> = s.parties[..2].iter().chain(&s.parties[4..]).flat_map(|p| p.ka.iter().map(|k| &k.key)).collect();
    se.events(&ev, &statics);
    // static-static shares
    for a in &s.parties[0].ka {
        for b in &s.parties[1].ka {
            if let Some(z) = a.key.ecdh(&b.key) {
                se.secret("shared secret", &z);
            }
        }
    }
    obs.eval(&s.shape());
    obs.countn("secrets searched for", se.secrets as u64);
    for (w, t) in &texts {
        look(obs, &se, w, t, || s.brief());
    }
}

/// Errors of operations that fail at any resolver call.
fn failing(r: &mut Rng, obs: &mut Obs) {
    let op = match c10::op(r) {
        Some(o) => o,
        None => return,
    };
    let ctl = Arc::new(Ctl::default());
    let (d, k) = (op.dr.with(&ctl), op.sr.with(&ctl));
    monitor::start();
    let _ = (op.f)(&d, &k);
    let n = ctl.log.lock().unwrap().len();
    let mut texts = vec![];
    for i in 0..n {
        ctl.reset();
        *ctl.fault.lock().unwrap() = Some((i, if r.bool() { Fault::Err(ErrorKind::IoError) } else { Fault::Nothing }));
        if let Ok(Err(e)) = (op.f)(&d, &k) {
            texts.push(error_texts(&e));
        }
    }
    let ev = monitor::take();
    let mut se = Searcher::default();
    for s in op.sr.secrets.values() {
        if let Some(k) = secret_key(s) {
            se.key("a private key", &k);
        }
    }
    se.events(&ev, &[]);
    obs.eval(&format!("{}{}", op.name, op.shape));
    obs.countn("secrets searched for", se.secrets as u64);
    for t in &texts {
        look(obs, &se, "error of a failing resolver", t, || json!(op.name));
    }
}

fn secret_key(s: &Secret) -> Option<Key> {
    use crate::dc::secrets::{SecretMaterial as M, SecretType as T};
    let okp = |b: &[u8], ed: bool| Key::from_secret(if ed { Crv::Ed25519 } else { Crv::X25519 }, b.get(..32)?);
    match &s.secret_material {
        M::JWK { private_key_jwk } => Key::from_jwk(private_key_jwk),
        M::Base58 { private_key_base58 } => okp(&bs58::decode(private_key_base58).into_vec().ok()?, matches!(s.type_, T::Ed25519VerificationKey2018)),
        M::Multibase { private_key_multibase } => okp(bs58::decode(&private_key_multibase[1..]).into_vec().ok()?.get(2..)?, matches!(s.type_, T::Ed25519VerificationKey2020)),
    }
}

/// Errors about damaged envelopes and damaged secrets.
fn damaged(r: &mut Rng, obs: &mut Obs) {
    let c = curves(r);
    let rc = party(r, &c[..1]);
    let snd = party(r, &c[..1]);
    if rc.did == snd.did {
        return;
    }
    let (k, sk) = (&rc.ka[0], &snd.ka[0]);
    let signer = r.pick(&snd.auth).clone();
    let mut msg = gmsg::message(r);
    (msg.attachments, msg.from, msg.from_prior, msg.to) = (None, None, None, None);
    let pt = gmsg::message_json(&msg).to_string();
    let auth = r.bool();
    let enc = if auth { ENCS[0] } else { *r.pick(&ENCS) };
    let plan = Plan::new(r, enc, &[(k.kid.clone(), k.key.public())], if auth { Some((&sk.kid, &sk.key)) } else { None });
    let dr = Dr::new([&rc, &snd]);
    let mut se = Searcher::default();
    for (n, x) in [("recipient's private key", &k.key), ("sender's private key", &sk.key), ("signer's private key", &signer.key), ("ephemeral private key", &plan.epk)] {
        se.key(n, x);
    }
    se.secret("content key", &plan.cek);
    let mut sealed = plan.seal(if r.chance(1, 4) { b"not a message" } else { pt.as_bytes() });
    se.secret("key encryption key", &plan.kek(&k.key, &sealed.tag));
    se.secret("shared secret", &plan.epk.ecdh(&k.key).unwrap());
    se.secret("shared secret", &sk.key.ecdh(&k.key).unwrap());
    monitor::start();
    let (what, got): (String, std::result::Result<Result<String>, Abnormal>) = match r.below(4) {
        0 => {
            // the envelope
            let what = match r.below(6) {
                4 => {
                    // a content key that is none for this algorithm
                    let n = 8 * *r.pick(&[2, 3, 4, 5, 6, 7, 9, 10, 16]);
                    let c = r.bytes(n);
                    se.secret("content key of another length", &c);
                    sealed.recips[0].1 = plan.wraps(&sealed.tag, &c)[0].1.clone();
                    "content key of another length"
                }
                5 => {
                    let c = r.bytes(plan.cek.len());
                    se.secret("another content key", &c);
                    sealed.recips[0].1 = plan.wraps(&sealed.tag, &c)[0].1.clone();
                    "another content key"
                }
                0 => {
                    sealed.tag[0] ^= 1;
                    "tag"
                }
                1 => {
                    sealed.ct[0] ^= 1;
                    "ciphertext"
                }
                2 => {
                    sealed.recips[0].1[3] ^= 1;
                    "wrapped key"
                }
                _ => "iv",
            };
            if what == "iv" {
                let n = r.below(30);
                sealed.iv = r.bytes(n);
            }
            (format!("envelope: {what}"), unpack(&sealed.text(), &dr, &Sr::keys([k]), &opts(r.bool(), r.bool())).map(|x| x.map(|m| format!("{:?}", m))))
        }
        1 => match c17::bad_secret(r, &k.kid, &k.key) {
            Some((s, w)) => (format!("recipient's secret: {w}"), unpack(&sealed.text(), &dr, &Sr::of([s]), &opts(r.bool(), r.bool())).map(|x| x.map(|m| format!("{:?}", m)))),
            None => return drop(monitor::take()),
        },
        2 => match c17::bad_secret(r, &sk.kid, &sk.key) {
            Some((s, w)) => {
                let o = c17::popts(r);
                (format!("sender's secret: {w}"), c17::encrypt(&msg, &rc.did, Some(&snd.did), None, &dr, &Sr::of([s]), &o))
            }
            None => return drop(monitor::take()),
        },
        _ => match c17::bad_secret(r, &signer.kid, &signer.key) {
            Some((s, w)) => {
                let sr = Sr::of([s]);
                let g = if r.bool() {
                    crate::world::run(async { Ok(msg.pack_signed(&signer.kid, &dr, &sr).await?.0) })
                } else {
                    let fp = FromPrior { iss: snd.did.clone(), sub: rc.did.clone(), aud: None, exp: None, nbf: None, iat: None, jti: None };
                    crate::world::run(async { Ok(fp.pack(Some(&signer.kid), &dr, &sr).await?.0) })
                };
                (format!("signing secret: {w}"), g)
            }
            None => return drop(monitor::take()),
        },
    };
    let ev = monitor::take();
    se.events(&ev, &[&k.key]);
    obs.eval(&format!("{what}{auth}{enc}{:?}", k.key.crv));
    obs.countn("secrets searched for", se.secrets as u64);
    match &got {
        Ok(Err(e)) => look(obs, &se, "error text", &error_texts(e), || json!(what)),
        Ok(Ok(t)) => look(obs, &se, "answer", t, || json!(what)),
        Err(a) => obs.violation("abnormal", json!({"what": what, "how": a.to_string()})),
    }
}

/// Standard output and error while the library works.
fn standard_streams(run: &mut Runner) {
    use std::io::{Read, Seek, Write};
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    let n = run.cfg.n(150, 1500);
    run.cases_on(1, "standard streams", n, |_, r, obs| {
        use std::os::fd::AsRawFd;
        let path = std::env::temp_dir().join(format!("vh-streams-{}", std::process::id()));
        let mut f = match std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path) {
            Ok(f) => f,
            Err(e) => return obs.harness_errors.push(e.to_string()),
        };
        let _ = std::fs::remove_file(&path);
        let s = scn(r, &Knobs { small: true, ..Default::default() });
        let dmg = r.bool();
        let mut inner = Obs::default();
        std::io::stdout().flush().ok();
        let (o1, o2) = unsafe {
            let (o1, o2) = (dup(1), dup(2));
            dup2(f.as_raw_fd(), 1);
            dup2(f.as_raw_fd(), 2);
            (o1, o2)
        };
        monitor::start();
        let p = s.pack();
        if let Ok(Ok(p)) = &p {
            if let Ok(t) = s.deliver(&p.text) {
                let _ = unpack(&t, &s.dr(), &Sr::party(&s.parties[1]), &opts(true, true));
            }
        }
        let ev = monitor::take();
        if dmg {
            damaged(r, &mut inner);
        }
        std::io::stdout().flush().ok();
        unsafe {
            dup2(o1, 1);
            dup2(o2, 2);
            close(o1);
            close(o2);
        }
        let mut t = vec![];
        let _ = f.seek(std::io::SeekFrom::Start(0));
        let _ = f.read_to_end(&mut t);
        let mut se = Searcher::default();
        for k in s.parties.iter().flat_map(|p| p.all()) {
            se.key("a private key", &k.key);
        }
        let statics: Vec<&Key> = s.parties.iter().flat_map(|p| p.ka.iter().map(|k| &k.key)).collect();
        se.events(&ev, &statics);
        obs.eval(&s.shape());
        obs.countn("bytes printed by the library", t.len() as u64);
        look(obs, &se, "standard output or error", &String::from_utf8_lossy(&t), || s.brief());
    });
}

pub fn run(run: &mut Runner) {
    run.rule(
        "All private keys of a scenario, and from the log of the cryptography boundary every generated key, content key, key encryption key and (recomputed) shared secret, are searched for
         - every 16 bytes, raw, base64 at every alignment, hex, base58, reversed, decimal lists, multibase - in the packed text and all it decodes to, in debug and JSON forms of everything returned,
         in every text of errors from failing resolvers, damaged envelopes and damaged secrets, and in what is printed. Distinct by scenario shape, operation and defect.",
    );
    run.assume("The Secret type's own debug and JSON forms, which exist to carry secrets, are not outputs of an operation.");
    let n = run.cfg.n(2500, 60_000);
    run.cases("packed", n, |_, r, obs| packed(r, obs));
    let n = run.cfg.n(1500, 30_000);
    run.cases("failing", n, |_, r, obs| failing(r, obs));
    let n = run.cfg.n(6000, 200_000);
    run.cases("damaged", n, |_, r, obs| damaged(r, obs));
    standard_streams(run);
    run.require("error text", 1000);
    run.require("packed text", 500);
    run.require("error of a failing resolver", 500);
}
