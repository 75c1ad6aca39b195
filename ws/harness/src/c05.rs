//! C05: exactly the addressed keys can read.
use crate::{c01::must_pack, dc::error::ErrorKind, gmsg, refc::*, refjose::*, scn::*, world::*};
use serde_json::{json, Value};
use vcommon::{Obs, Rng, Runner};

fn layers(s: &Scn, text: &str, kids: &[String]) -> Result<Vec<Opened>, String> {
    let rc = &s.parties[1];
    let k = rc.key(&kids[0]).ok_or("no such key")?;
    let mut v = vec![];
    let mut t = text.to_string();
    while is_jwe(&t) {
        let o = open(&t, &k.kid, &k.key, &|id| s.public(id))?;
        t = String::from_utf8(o.plaintext.clone()).map_err(|_| "utf-8")?;
        v.push(o);
    }
    Ok(v)
}

fn case(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
    let s = scn(r, &Knobs { mode, to_self: 12, ..Default::default() });
    let p = match must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    let inner = match s.deliver(&p.text) {
        Ok(m) => m,
        Err(_) => return obs.count("not delivered (judged elsewhere)"),
    };
    let rc = &s.parties[1];
    let w = |x: Value| json!({"detail": x, "scenario": s.brief(), "packed": inner});
    let named = p.to_kids.clone().unwrap();
    let listed: Vec<String> = match parts(&inner) {
        Ok(x) => x.1.into_iter().map(|x| x.0).collect(),
        Err(e) => return obs.violation("envelope-not-readable", w(json!(e))),
    };
    obs.eval(&s.shape());
    obs.count(&format!("{:?} to {} keys", s.mode, listed.len().min(4)));
    if !obs.check(listed == named, "returned key ids differ from the envelope's", || w(json!({"listed": listed, "returned": named}))) {
        return;
    }
    let sets = s.target_sets();
    if !obs.check(sets.iter().any(|x| x.1 == listed), "addressed keys are not the recipient's keys of one curve", || w(json!({"listed": listed, "possible": sets.iter().map(|x| &x.1).collect::<Vec<_>>()}))) {
        return;
    }
    // each addressed key alone
    for k in &listed {
        let e = rc.key(k).unwrap();
        let mut t = inner.clone();
        let mut n = 0;
        while is_jwe(&t) {
            match open(&t, k, &e.key, &|id| s.public(id)) {
                Ok(o) => {
                    if o.kids != listed {
                        return obs.violation("layers addressed to different keys", w(json!(o.kids)));
                    }
                    t = String::from_utf8(o.plaintext).unwrap_or_default();
                    n += 1;
                }
                Err(x) => return obs.violation("an addressed key cannot decrypt", w(json!({"kid": k, "why": x}))),
            }
        }
        let want = 1 + (s.mode == Mode::Auth && s.opts.protect_sender) as usize;
        obs.check(n == want, "number of encryption layers", || w(json!({"layers": n, "expected": want})));
        obs.count("addressed key opened every layer");
        if !matches!(unpack(&inner, &s.dr(), &Sr::keys([e]), &opts(r.bool(), true)), Ok(Ok(_))) {
            return obs.violation("an addressed key cannot unpack", w(json!(k)));
        }
    }
    // no other key, neither under its own id nor under an addressed one
    let others: Vec<KeyEntry> = rc.ka.iter().chain(&s.parties[0].ka).chain(&s.parties[2].ka).filter(|k| !listed.contains(&k.kid)).cloned().collect();
    for e in others {
        if open(&inner, &listed[0], &e.key, &|id| s.public(id)).is_ok() {
            return obs.violation("a key not addressed decrypts", w(json!(e.kid)));
        }
        let imp = KeyEntry { kid: listed[0].clone(), ..e.clone() };
        for sr in [Sr::keys([&e]), Sr::keys([&imp])] {
            match unpack(&inner, &s.dr(), &sr, &opts(r.bool(), true)) {
                Ok(Ok(_)) => return obs.violation("a key not addressed unpacks", w(json!(e.kid))),
                Ok(Err(_)) => obs.count("other key refused"),
                Err(a) => return obs.violation("abnormal", w(json!(a.to_string()))),
            }
        }
    }
    // the sender key
    if s.mode == Mode::Auth {
        let fk = p.from_kid.clone().unwrap_or_default();
        let snd = &s.parties[0];
        let okk = snd.ka.iter().any(|k| k.kid == fk) && s.held.contains(&fk) && (s.from.as_deref() == Some(&snd.did) || s.from.as_deref() == Some(&fk));
        obs.check(okk, "sender key not permitted", || w(json!({"used": fk, "held": s.held})));
        match layers(&s, &inner, &listed) {
            Ok(l) => {
                obs.check(l.last().and_then(|o| o.header.get("skid")).and_then(|x| x.as_str()) == Some(&fk), "sender key in the envelope", || w(json!(fk)));
                obs.count("sender key judged");
            }
            Err(e) => obs.violation("layers", w(json!(e))),
        }
    } else {
        obs.check(p.from_kid.is_none(), "sender key without sender", || w(json!(p.from_kid)));
    }
    if let Some(sb) = &s.sign_by {
        let k = p.sign_by_kid.clone().unwrap_or_default();
        let sp = &s.parties[s.signer];
        obs.check(sp.auth.iter().any(|a| a.kid == k) && (sb == &sp.did || sb == &k), "signer key not permitted", || w(json!(k)));
    } else {
        obs.check(p.sign_by_kid.is_none(), "signer key without signer", || w(json!(p.sign_by_kid)));
    }
    obs.sample(|| json!({"scenario": s.shape(), "addressed": listed}));
}

/// What cannot be addressed must be refused, not addressed otherwise.
fn refusal(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
    let mut s = scn(r, &Knobs { mode, routed: Some(false), ..Default::default() });
    s.msg.from_prior = None;
    let d = s.parties[1].did.clone();
    let what;
    let mut kind = None;
    match r.below(9) {
        0 => {
            s.to = format!("{d}#nosuchkey");
            what = "recipient key id not in the document";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        1 => {
            s.to = s.parties[1].auth[0].kid.clone();
            what = "recipient key id only in authentication";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        2 => {
            s.to = s.to.to_uppercase().replace("DID:", "did:");
            if s.parties[1].did == s.to || s.parties[1].key(&s.to).is_some() {
                return;
            }
            s.msg.to = None;
            what = "recipient in another case";
            kind = if s.to.split('#').next() == Some(&d) { Some(ErrorKind::DIDUrlNotFound) } else { Some(ErrorKind::DIDNotResolved) };
        }
        3 => {
            s.parties[1].ka.clear();
            what = "recipient without key agreement keys";
            s.to = d;
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        4 => {
            // keys no algorithm here can use
            for k in s.parties[1].ka.iter_mut() {
                let c = if r.bool() { Crv::Ed25519 } else { Crv::K256 };
                k.key = Key::gen(r, c);
            }
            what = "recipient with signing keys for key agreement";
        }
        5 if s.mode == Mode::Auth => {
            s.from = Some(s.parties[0].auth[0].kid.clone());
            what = "sender key id only in authentication";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        6 if s.mode == Mode::Auth => {
            s.from = Some(format!("{}#nosuchkey", s.parties[0].did));
            what = "sender key id not in the document";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        7 if s.mode == Mode::Auth => {
            match &s.from {
                Some(f) if f.contains('#') => {
                    let f = f.clone();
                    s.held.retain(|h| *h != f)
                }
                _ => s.held.clear(),
            }
            what = "sender key not held";
            kind = Some(ErrorKind::SecretNotFound);
        }
        8 if s.mode == Mode::Auth => {
            // disjoint curves
            let c = *r.pick(&[Crv::X25519, Crv::P256]);
            let o = if c == Crv::P256 { Crv::X25519 } else { Crv::P256 };
            for k in s.parties[1].ka.iter_mut() {
                k.key = Key::gen(r, c);
            }
            for k in s.parties[0].ka.iter_mut() {
                k.key = Key::gen(r, o);
            }
            what = "no curve in common";
            kind = Some(ErrorKind::NoCompatibleCrypto);
        }
        _ => return,
    }
    obs.eval(&format!("{what}{}", s.shape()));
    obs.count(what);
    match s.pack() {
        Ok(Ok(p)) => obs.violation(format!("packed: {what}"), json!({"scenario": s.brief(), "to_kids": p.to_kids, "from_kid": p.from_kid, "packed": p.text})),
        Ok(Err(e)) => {
            if let Some(k) = kind {
                obs.check(e.kind() == k, "refused as another kind", || json!({"what": what, "kind": format!("{:?}", e.kind()), "expected": format!("{k:?}"), "scenario": s.brief()}));
            }
        }
        Err(a) => obs.violation("abnormal", json!({"what": a.to_string(), "scenario": s.brief()})),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Random messages are encrypted to recipients with 1..4 key agreement keys of mixed curves and representations, addressed by DID or
         key id; the envelope's recipient list and the returned key ids must be exactly the recipient's keys of one curve, every one of
         them alone must open every layer (judged by an independent implementation and by the library), every other key must not, and
         the sender key must be a held key agreement key that was asked for. Impossible addressings must be refused. Distinct by scenario
         shape and kind of refusal.",
    );
    run.assume("Which of several usable curves is chosen is left open. askar-crypto is replaced by a stand-in over OpenSSL.");
    let n = run.cfg.n(3000, 120_000);
    run.cases("addressed", n, |_, r, obs| case(r, obs));
    let n = run.cfg.n(3000, 100_000);
    run.cases("refused", n, |_, r, obs| refusal(r, obs));
    run.require("other key refused", 500);
    run.require("sender key judged", 100);
}
