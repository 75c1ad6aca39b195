//! C12: from_prior tokens.
use crate::{
    dc::{error::ErrorKind, FromPrior, Message},
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use serde_json::{json, Value};
use vcommon::{gen, Obs, Rng, Runner};

fn claims(r: &mut Rng, iss: &str, sub: &str) -> FromPrior {
    let mut b = FromPrior::build(iss.into(), sub.into());
    if r.bool() {
        b = b.aud(gen::text(r));
    }
    if r.bool() {
        b = b.exp(gen::u64v(r));
    }
    if r.bool() {
        b = b.nbf(gen::u64v(r));
    }
    if r.bool() {
        b = b.iat(gen::u64v(r));
    }
    if r.bool() {
        b = b.jti(gen::text(r));
    }
    b.finalize()
}

fn claims_json(c: &FromPrior) -> Value {
    let mut v = json!({"iss": c.iss, "sub": c.sub});
    let mut s = |k: &str, x: Option<Value>| {
        if let Some(x) = x {
            v[k] = x
        }
    };
    s("aud", c.aud.as_ref().map(|x| json!(x)));
    s("exp", c.exp.map(|x| json!(x)));
    s("nbf", c.nbf.map(|x| json!(x)));
    s("iat", c.iat.map(|x| json!(x)));
    s("jti", c.jti.as_ref().map(|x| json!(x)));
    v
}

fn segs(t: &str) -> Option<(Value, Value, Vec<u8>)> {
    let s: Vec<&str> = t.split('.').collect();
    if s.len() != 3 {
        return None;
    }
    Some((serde_json::from_slice(&unb64(s[0])?).ok()?, serde_json::from_slice(&unb64(s[1])?).ok()?, unb64(s[2])?))
}

/// The message names the parties elsewhere too, which has no bearing on the rotation.
fn named(r: &mut Rng, m: &mut Message, ps: &[&Party]) {
    if r.bool() {
        m.to = Some((0..r.range(1, 4)).map(|_| r.pick(ps).did.clone()).collect());
    }
    if r.chance(1, 4) {
        m.thid = Some(r.pick(ps).did.clone());
    }
    if r.chance(1, 4) {
        m.pthid = Some(r.pick(ps).did.clone());
    }
    if r.chance(1, 4) {
        let n = (*r.pick(&["iss", "sub", "kid", "to2", "From", "from_prior2"])).to_string();
        m.extra_headers.insert(n, json!(r.pick(ps).did));
    }
}

fn sent(m: &Message) -> String {
    format!("{}{}{}", m.thid.is_some(), m.pthid.is_some(), m.attachments.as_ref().map_or(0, |a| a.len()))
}

fn pack(r: &mut Rng, obs: &mut Obs) {
    let c1 = curves(r);
    let (iss, sub, other) = (party(r, &c1), party(r, &[Crv::X25519]), party(r, &[Crv::X25519]));
    let dr = Dr::new([&iss, &sub, &other]);
    let mut c = claims(r, &iss.did, &sub.did);
    let mut kid = None;
    let mut held: Vec<KeyEntry> = iss.auth.iter().filter(|_| r.chance(3, 4)).cloned().collect();
    if r.bool() {
        held.extend(iss.ka.iter().chain(&iss.extra).chain(&sub.auth).chain(&other.auth).cloned());
    }
    let mut what = "sound";
    let mut kind = None;
    match r.below(16) {
        0 => {
            c.iss = (*r.pick(&["", "did", "did:x", "alice", "https://x.y/z", "did/example/x"])).to_string();
            what = "iss is not a DID";
            kind = Some(ErrorKind::Malformed);
        }
        1 => {
            c.iss = format!("{}#{}", iss.did, r.pick(&["key-1", "", "a#b"]));
            what = "iss has a fragment";
            kind = Some(ErrorKind::Malformed);
        }
        2 => {
            c.sub = (*r.pick(&["", "did", "did:x", "bob", "urn:a:b"])).to_string();
            what = "sub is not a DID";
            kind = Some(ErrorKind::Malformed);
        }
        3 => {
            c.sub = format!("{}#{}", sub.did, r.pick(&["key-1", "", "a#b"]));
            what = "sub has a fragment";
            kind = Some(ErrorKind::Malformed);
        }
        4 => {
            c.sub = c.iss.clone();
            what = "iss equals sub";
            kind = Some(ErrorKind::Malformed);
        }
        5 => {
            let o = if r.bool() { &sub } else { &other };
            kid = Some(o.auth[0].kid.clone());
            what = "key of another DID";
            kind = Some(ErrorKind::IllegalArgument);
        }
        6 => {
            kid = Some((*r.pick(&[iss.did.as_str(), "", "key-1", "did:x:y"])).to_string());
            what = "key id without fragment";
            kind = Some(ErrorKind::IllegalArgument);
        }
        7 => {
            kid = Some(r.pick(&iss.ka).kid.clone());
            held.extend(iss.ka.iter().cloned());
            what = "key for another purpose";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        8 => {
            kid = Some(format!("{}#nokey", iss.did));
            what = "no such key";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        9 => {
            c.iss = format!("{}zz", iss.did);
            what = "iss not resolved";
            kind = Some(ErrorKind::DIDNotResolved);
        }
        x => {
            if x > 12 {
                kid = Some(r.pick(&iss.auth).kid.clone());
            }
        }
    }
    let can: Vec<String> = iss.auth.iter().map(|k| k.kid.clone()).filter(|k| held.iter().any(|h| &h.kid == k) && kid.as_ref().map(|x| x == k).unwrap_or(true)).collect();
    if kind.is_none() && can.is_empty() {
        what = "key not held";
        kind = Some(ErrorKind::SecretNotFound);
    }
    let sr = Sr::keys(&held).reversed(r.bool());
    obs.eval(&format!("{what}{}{}{}", kid.is_some(), can.len(), claims_json(&c).as_object().unwrap().len()));
    obs.count(&format!("pack: {what}"));
    let w = |x: Value| json!({"detail": x, "claims": claims_json(&c), "issuer_kid": kid, "held": held.iter().map(|k| &k.kid).collect::<Vec<_>>(), "what": what});
    match crate::world::run(c.pack(kid.as_deref(), &dr, &sr)) {
        Ok(Ok((t, k))) => {
            if kind.is_some() {
                return obs.violation(format!("packed though {what}"), w(json!(t)));
            }
            if !obs.check(can.contains(&k), "signed by a key that was not to be used", || w(json!(k))) {
                return;
            }
            let e = iss.auth.iter().find(|x| x.kid == k).unwrap();
            let (h, p, s) = match segs(&t) {
                Some(x) => x,
                None => return obs.violation("token is not a JWT", w(json!(t))),
            };
            obs.check(h == json!({"typ": "JWT", "alg": e.key.crv.sign_alg(), "kid": k}), "token header", || w(h.clone()));
            obs.check(p == claims_json(&c), "token claims", || w(p.clone()));
            let input = &t[..t.rfind('.').unwrap()];
            if !obs.check(e.key.verify(input.as_bytes(), &s), "token signature", || w(json!(t))) {
                return;
            }
            match crate::world::run(FromPrior::unpack(&t, &dr)) {
                Ok(Ok((c2, k2))) => {
                    obs.count("round trips");
                    obs.check(claims_json(&c2) == claims_json(&c) && k2 == k, "round trip changes the claims or key", || w(json!({"claims": claims_json(&c2), "kid": k2})));
                }
                x => return obs.violation("own token refused", w(json!(format!("{x:?}")))),
            }
            // in a message
            let mut m = gmsg::message(r);
            m.from_prior = Some(t.clone());
            let (from, ok) = match r.below(10) {
                0 => (None, true),
                1 => (Some(other.did.clone()), false),
                2 => (Some(format!("{}x", sub.did)), false),
                3 => (Some(iss.did.clone()), false),
                4 => (Some(r.pick(&sub.auth).kid.clone()), false),
                5 => (Some(sub.did[..sub.did.len() - 1].to_string()), false),
                6 => (Some(sub.did.to_uppercase()), false),
                _ => (Some(sub.did.clone()), true),
            };
            m.from = from;
            named(r, &mut m, &[&iss, &sub, &other]);
            obs.eval(&format!("from {ok}{}{}{:?}{}", m.from.is_some(), m.to.as_ref().map_or(9, |t| t.len()), e.key.crv, sent(&m)));
            match crate::world::run(m.pack_plaintext(&dr)) {
                Ok(Ok(text)) => {
                    obs.check(ok, "packed though sub differs from the message's from", || w(json!({"from": m.from})));
                    match unpack(&text, &dr, &Sr::none(), &opts(false, true)) {
                        Ok(Ok((_, meta))) => {
                            let ok = meta.from_prior.as_ref().map(claims_json) == Some(claims_json(&c)) && meta.from_prior_issuer_kid.as_deref() == Some(&k);
                            obs.count("reported in metadata");
                            obs.check(ok, "metadata names other claims or key", || w(json!(format!("{meta:?}"))));
                        }
                        x => obs.violation("own message refused", w(json!(format!("{x:?}")))),
                    }
                }
                Ok(Err(e)) => {
                    obs.check(!ok && e.kind() == ErrorKind::Malformed, "message with from_prior", || w(json!({"from": m.from, "error": format!("{e:?}")})));
                }
                Err(a) => obs.violation("abnormal", w(json!(a.to_string()))),
            }
        }
        Ok(Err(e)) => match kind {
            None => obs.violation("sound claims refused", w(json!(format!("{e:?}")))),
            Some(k) => {
                obs.check(e.kind() == k, "refused as another kind", || w(json!({"kind": format!("{:?}", e.kind()), "expected": format!("{k:?}")})));
            }
        },
        Err(a) => obs.violation("abnormal", w(json!(a.to_string()))),
    }
}

fn token(r: &mut Rng, obs: &mut Obs) {
    let c1 = curves(r);
    let (iss, sub, evil) = (party(r, &c1), party(r, &[Crv::X25519]), party(r, &[Crv::P256]));
    let dr = Dr::new([&iss, &sub, &evil]);
    let c = claims(r, &iss.did, &sub.did);
    let mut k = r.pick(&iss.auth).clone();
    let mut h = json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid});
    let mut p = gen::restyle(&claims_json(&c), r, true).into_bytes();
    let mut bad = true;
    let mut what = "sound";
    let mut kind = None;
    let mut t = String::new();
    match r.below(30) {
        0 => {
            let o: Vec<_> = iss.ka.iter().chain(&iss.extra).filter(|x| matches!(x.key.crv, Crv::P256 | Crv::Ed25519)).cloned().collect();
            if o.is_empty() {
                return;
            }
            k = r.pick(&o).clone();
            h = json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid});
            what = "key for another purpose";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        1 => {
            k = r.pick(&evil.auth).clone();
            h = json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid});
            what = "key of another DID";
        }
        2 => {
            k = r.pick(&sub.auth).clone();
            h = json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid});
            what = "key of the new DID";
        }
        3 => {
            k = KeyEntry { key: Key::gen(r, k.key.crv), ..k.clone() };
            what = "another key's signature";
        }
        4 => {
            let o = ["EdDSA", "ES256", "ES256K"].iter().find(|a| **a != k.key.crv.sign_alg()).unwrap();
            h["alg"] = json!(o);
            what = "alg of another key type";
        }
        5 => {
            h["alg"] = json!(*r.pick(&["none", "None", "HS256", "es256", "EdDSA ", "ES384", "", "ES256KK"]));
            what = "unknown alg";
            kind = Some(ErrorKind::Unsupported);
        }
        6 => {
            h["typ"] = json!(*r.pick(&["jwt", "", "JWS", "JWT ", "JWT+jws", "application/JWT", "JWT;x", "JWTs", "application/didcomm-signed+json"]));
            what = "another typ";
            kind = Some(ErrorKind::Malformed);
        }
        7 => {
            let m = *r.pick(&["typ", "alg", "kid"]);
            h.as_object_mut().unwrap().remove(m);
            what = "header member missing";
            kind = Some(ErrorKind::Malformed);
        }
        8 => {
            h["kid"] = json!(iss.did);
            what = "key id without fragment";
            kind = Some(ErrorKind::Malformed);
        }
        9 => {
            h["kid"] = json!(format!("{}#nokey", iss.did));
            what = "no such key";
            kind = Some(ErrorKind::DIDUrlNotFound);
        }
        10 => {
            h["kid"] = json!(format!("{}zz#key-1", iss.did));
            what = "DID not resolved";
            kind = Some(ErrorKind::DIDNotResolved);
        }
        11 => {
            let mut v = claims_json(&c);
            let m = *r.pick(&["iss", "sub"]);
            if r.bool() {
                v.as_object_mut().unwrap().remove(m);
            } else {
                v[m] = json!(1);
            }
            p = v.to_string().into_bytes();
            what = "iss or sub missing or no text";
            kind = Some(ErrorKind::Malformed);
        }
        12 => {
            p = r.pick(&[&b"\xff\xfe"[..], b"", b"{}", b"[]", b"null", b"\"x\"", b"{\"iss\":"]).to_vec();
            what = "claims are not a claims object";
            kind = Some(ErrorKind::Malformed);
        }
        13 => {
            let mut v = claims_json(&c);
            v["iss"] = json!(*r.pick(&[format!("{}x", iss.did).as_str(), &iss.did[..iss.did.len() - 1], &k.kid, "", &iss.did.to_uppercase()]));
            p = v.to_string().into_bytes();
            what = "iss nearly the key's DID";
            kind = Some(ErrorKind::Malformed);
        }
        14 => {
            let s = jwt(&h, &p, &k.key);
            let mut v: Vec<&str> = s.split('.').collect();
            match r.below(5) {
                0 => {
                    v.pop();
                }
                1 => v.push("e30"),
                2 => v.insert(0, ""),
                3 => v[2] = "",
                _ => v[1] = "",
            }
            t = v.join(".");
            what = "wrong number of parts";
            kind = Some(ErrorKind::Malformed);
        }
        15 => {
            // claims of another token
            let c2 = claims(r, &iss.did, &evil.did);
            let s = jwt(&h, &p, &k.key);
            let v: Vec<&str> = s.split('.').collect();
            t = format!("{}.{}.{}", v[0], b64(claims_json(&c2).to_string().as_bytes()), v[2]);
            what = "other claims under the signature";
            kind = Some(ErrorKind::Malformed);
        }
        16..=19 => {
            // any one character changed: refused, or still exactly the signed claims
            let mut s = jwt(&h, &p, &k.key).into_bytes();
            let i = r.below(s.len());
            let old = s[i];
            s[i] = *r.pick(&b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=+/. "[..]);
            if s[i] == old {
                return;
            }
            t = String::from_utf8(s).unwrap();
            what = "one character changed";
        }
        _ => {
            bad = false;
            if r.chance(1, 4) {
                h["x-extra"] = gen::json(r, 1);
            }
        }
    }
    if t.is_empty() {
        t = jwt(&h, &p, &k.key);
    }
    obs.eval(&format!("{what}{:?}", k.key.crv));
    obs.count(&format!("token: {what}"));
    let w = |x: Value| json!({"detail": x, "token": t, "header": h, "claims": String::from_utf8_lossy(&p), "what": what, "iss": iss.did, "sub": sub.did});
    let same = |c2: &FromPrior, k2: &str| claims_json(c2) == claims_json(&c) && k2 == k.kid;
    let res = crate::world::run(FromPrior::unpack(&t, &dr));
    let accepted = matches!(res, Ok(Ok(_)));
    match res {
        Ok(Ok((c2, k2))) if bad => {
            if what != "one character changed" || !same(&c2, &k2) {
                return obs.violation(format!("accepted: {what}"), w(json!({"claims": claims_json(&c2), "kid": k2})));
            }
            obs.count("changed but meaning the same");
        }
        Ok(Ok((c2, k2))) => {
            obs.check(same(&c2, &k2), "other claims or key than signed", || w(json!({"claims": claims_json(&c2), "kid": k2})));
        }
        Ok(Err(e)) if !bad => return obs.violation("sound token refused", w(json!(format!("{e:?}")))),
        Ok(Err(e)) => {
            obs.count("refused");
            if let Some(k) = kind {
                obs.check(e.kind() == k, "refused as another kind", || w(json!({"kind": format!("{:?}", e.kind()), "expected": format!("{k:?}")})));
            }
        }
        Err(a) => return obs.violation("abnormal", w(json!(a.to_string()))),
    }
    // the same verdict for a received and a sent message carrying it
    let mut m = gmsg::message(r);
    m.from = Some(sub.did.clone());
    m.from_prior = Some(t.clone());
    named(r, &mut m, &[&iss, &sub]);
    let text = gmsg::message_json(&m).to_string();
    match unpack(&text, &dr, &Sr::none(), &opts(false, r.bool())) {
        Ok(Ok((_, meta))) => {
            obs.check(accepted && meta.from_prior.as_ref().map(|c2| same(c2, meta.from_prior_issuer_kid.as_deref().unwrap_or(""))) == Some(true), "received message reports a refused from_prior", || w(json!(format!("{meta:?}"))));
        }
        Ok(Err(_)) => {
            obs.check(!accepted, "received message with a sound from_prior refused", || w(json!(null)));
        }
        Err(a) => obs.violation("abnormal", w(json!(a.to_string()))),
    }
    match crate::world::run(m.pack_plaintext(&dr)) {
        Ok(Ok(_)) => {
            obs.check(accepted, "message sent with a refused from_prior", || w(json!(null)));
        }
        Ok(Err(_)) => {
            obs.check(!accepted, "message with a sound from_prior not sent", || w(json!(null)));
        }
        Err(a) => obs.violation("abnormal", w(json!(a.to_string()))),
    }
}

/// Tokens signed by the right key whose claims a sender must not pack into a message.
fn claims_refused(r: &mut Rng, obs: &mut Obs) {
    let (iss, sub) = (party(r, &[Crv::X25519]), party(r, &[Crv::X25519]));
    let dr = Dr::new([&iss, &sub]);
    let k = r.pick(&iss.auth).clone();
    let h = json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid});
    let (s, what) = match r.below(4) {
        0 => (iss.did.clone(), "iss equals sub"),
        1 => (format!("{}#key-1", sub.did), "sub has a fragment"),
        2 => ("bob".to_string(), "sub is not a DID"),
        _ => (sub.did.clone(), "sound"),
    };
    let t = jwt(&h, json!({"iss": iss.did, "sub": s}).to_string().as_bytes(), &k.key);
    let mut m = gmsg::message(r);
    m.from_prior = Some(t);
    if r.bool() {
        m.from = Some(s.clone());
    }
    named(r, &mut m, &[&iss, &sub]);
    obs.eval(&format!("{what}{}{:?}", m.from.is_some(), k.key.crv));
    let sign = r.bool();
    obs.count(&format!("message: {what}"));
    let res = if sign {
        let by = sub.auth[0].kid.clone();
        crate::world::run(async { m.pack_signed(&by, &dr, &Sr::party(&sub)).await.map(|x| x.0) })
    } else {
        crate::world::run(m.pack_plaintext(&dr))
    };
    match res {
        Ok(Ok(x)) => {
            obs.check(what == "sound", &format!("packed a message whose from_prior {what}"), || json!({"packed": x, "sub": s}));
        }
        Ok(Err(e)) => {
            obs.check(what != "sound" && e.kind() == ErrorKind::Malformed, "message with from_prior", || json!({"what": what, "error": format!("{e:?}")}));
        }
        Err(a) => obs.violation("abnormal", json!(a.to_string())),
    }
}

pub fn run(run_: &mut Runner) {
    run_.rule(
        "FromPrior::pack is driven with sound and unsound claims, key ids and held keys; its token must verify under an independent JWT
         implementation with exactly the claims and unpack to them. Tokens made by that implementation, sound or with one of 17 defects
         (issuer, key, purpose, algorithm, type, parts, claims, one character changed), are given to FromPrior::unpack and, inside
         messages, to unpack and pack: refused exactly if defective. Distinct by defect, key type and shape of the claims.",
    );
    run_.assume("askar-crypto is replaced by a stand-in over OpenSSL (the real crate is not available offline).");
    let n = run_.cfg.n(8000, 300_000);
    run_.cases("pack", n, |_, r, obs| pack(r, obs));
    let n = run_.cfg.n(8000, 400_000);
    run_.cases("token", n, |_, r, obs| token(r, obs));
    let n = run_.cfg.n(1500, 30_000);
    run_.cases("claims", n, |_, r, obs| claims_refused(r, obs));
    run_.require("round trips", 500);
    run_.require("refused", 1000);
}
