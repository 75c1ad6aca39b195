//! C03: what unpack reports was really established.
use crate::{
    c01::must_pack,
    dc::{
        algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg},
        UnpackMetadata,
    },
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use serde_json::{json, Value};
use vcommon::{Obs, Rng, Runner};

#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub anon: Option<String>,
    pub auth: Option<String>,
    pub signer: Option<(String, Crv)>,
    pub to: Option<Vec<String>>,
    pub prior: Option<(Value, String)>,
    pub rewrapped: bool,
    /// A layer outside a re-wrapped message was anonymous encryption.
    pub payload: Option<Value>,
    /// The signed copy, where the harness made it.
    pub copy: Option<Value>,
}

/// Every member of the metadata against what was established. Returns the first that is not true.
pub fn judge(e: &Expect, m: &UnpackMetadata, keys: &dyn Fn(&str) -> Option<Key>) -> Result<(), String> {
    let enc = e.anon.is_some() || e.auth.is_some();
    let eq = |n: &str, a: Value, b: Value| if a == b { Ok(()) } else { Err(format!("{n}: reported {a}, established {b}")) };
    eq("encrypted", json!(m.encrypted), json!(enc))?;
    eq("authenticated", json!(m.authenticated), json!(e.auth.is_some() || e.signer.is_some()))?;
    eq("non_repudiation", json!(m.non_repudiation), json!(e.signer.is_some()))?;
    eq("anonymous_sender", json!(m.anonymous_sender), json!(e.anon.is_some()))?;
    eq("re_wrapped_in_forward", json!(m.re_wrapped_in_forward), json!(e.rewrapped))?;
    eq("encrypted_from_kid", json!(m.encrypted_from_kid), json!(e.auth))?;
    eq("encrypted_to_kids", json!(m.encrypted_to_kids), json!(e.to))?;
    eq("sign_from", json!(m.sign_from), json!(e.signer.as_ref().map(|s| &s.0)))?;
    eq("from_prior_issuer_kid", json!(m.from_prior_issuer_kid), json!(e.prior.as_ref().map(|s| &s.1)))?;
    let aa = e.auth.as_ref().map(|_| AuthCryptAlg::A256cbcHs512Ecdh1puA256kw);
    if m.enc_alg_auth != aa {
        return Err(format!("enc_alg_auth: reported {:?}, established {:?}", m.enc_alg_auth, aa));
    }
    let an = e.anon.as_deref().map(anon_of);
    if m.enc_alg_anon != an {
        return Err(format!("enc_alg_anon: reported {:?}, established {:?}", m.enc_alg_anon, an));
    }
    let sa = e.signer.as_ref().map(|s| match s.1 {
        Crv::P256 => SignAlg::ES256,
        Crv::K256 => SignAlg::ES256K,
        _ => SignAlg::EdDSA,
    });
    if m.sign_alg != sa {
        return Err(format!("sign_alg: reported {:?}, established {:?}", m.sign_alg, sa));
    }
    eq("from_prior", json!(m.from_prior.as_ref().map(|p| serde_json::to_value(p).unwrap())), json!(e.prior.as_ref().map(|p| &p.0)))?;
    match (&m.signed_message, &e.signer) {
        (None, None) => {}
        (Some(s), Some(_)) if e.copy.is_some() => {
            if serde_json::from_str::<Value>(s).ok() != e.copy {
                return Err("signed_message is not the signed copy".into());
            }
        }
        (Some(s), Some((kid, _))) => {
            let v = verify_jws(s, keys).map_err(|x| format!("signed_message is not the signed copy: {x}"))?;
            if &v.kid != kid {
                return Err("signed_message names another signer".into());
            }
            if let Some(p) = &e.payload {
                if serde_json::from_slice::<Value>(&v.payload).ok().as_ref() != Some(p) {
                    return Err("signed_message carries another message".into());
                }
            }
        }
        (s, _) => return Err(format!("signed_message: {}", if s.is_some() { "present without signature" } else { "missing" })),
    }
    Ok(())
}

pub fn expect_of(s: &Scn, p: &Packed) -> Expect {
    let anon = match s.mode {
        Mode::Anon => true,
        Mode::Auth => s.opts.protect_sender,
        _ => false,
    };
    Expect {
        anon: if anon { Some(anon_enc(&s.opts.enc_alg_anon).into()) } else { None },
        auth: p.from_kid.clone(),
        signer: p.sign_by_kid.clone().and_then(|k| s.public(&k).map(|x| (k, x.crv))),
        to: p.to_kids.clone(),
        prior: s.from_prior_claims.clone(),
        rewrapped: false,
        payload: Some(gmsg::message_json(&s.msg)),
        copy: None,
    }
}

struct Craft {
    text: String,
    /// None: must be refused.
    expect: Option<Expect>,
    msg: crate::dc::Message,
    what: String,
}

/// A message layered by the reference implementation, with at most one defect.
fn craft(r: &mut Rng, s: &Scn) -> Craft {
    let (snd, rcp, evil) = (&s.parties[0], &s.parties[1], &s.parties[2]);
    let (crv, kids) = s.target_sets()[0].clone();
    let recips: Vec<(String, Key)> = kids.iter().map(|k| (k.clone(), rcp.key(k).unwrap().key.public())).collect();
    let mut msg = s.msg.clone();
    let mut e = Expect { prior: s.from_prior_claims.clone(), ..Default::default() };
    let (mut anon, mut auth, mut sign) = (r.bool(), r.bool(), r.bool());
    if !anon && !auth && !sign {
        match r.below(3) {
            0 => anon = true,
            1 => auth = true,
            _ => sign = true,
        }
    }
    let mut what = vec![];
    let mut reject = false;
    let defect = if r.chance(1, 3) { 0 } else { r.range(1, 16) };
    // what the sender's document offers
    let skey = snd.ka_of(crv).first().map(|k| (*k).clone());
    let mut sk = match skey {
        Some(k) => k,
        None => {
            auth = false;
            if !anon {
                sign = true
            }
            snd.ka[0].clone()
        }
    };
    let mut skid = sk.kid.clone();
    if auth {
        match defect {
            1 => {
                // a key the sender's document does not authorise for key agreement
                if let Some(x) = snd.extra.iter().chain(&snd.auth).find(|k| k.key.crv == crv && !snd.ka.iter().any(|x| x.kid == k.kid)) {
                    sk = x.clone();
                    skid = x.kid.clone();
                    what.push("sender key not in keyAgreement");
                    reject = true;
                }
            }
            2 => {
                msg.from = Some(evil.did.clone());
                msg.from_prior = None;
                e.prior = None;
                what.push("from names another party");
                reject = true;
            }
            3 => {
                sk = KeyEntry { key: Key::gen(r, crv), ..sk.clone() };
                what.push("sender key material of the attacker");
                reject = true;
            }
            4 => {
                msg.from = Some(if r.bool() { format!("{}x", snd.did) } else { snd.did[..snd.did.len() - 1].to_string() });
                msg.from_prior = None;
                e.prior = None;
                what.push("from nearly the sender");
                reject = true;
            }
            5 => {
                skid = format!("{}#nokey", snd.did);
                what.push("sender key id not in the document");
                reject = true;
            }
            6 => {
                skid = snd.did.clone();
                what.push("sender id without fragment");
                reject = true;
            }
            7 => {
                msg.from = Some(skid.clone());
                msg.from_prior = None;
                e.prior = None;
                what.push("from is a key id");
                // not a DID; whether that is an equal sender is left open
                reject = true;
            }
            15 => {
                // a rotation does not let the old DID speak for the new one
                if let Some(x) = s.parties[3].ka_of(crv).first() {
                    sk = (*x).clone();
                    skid = x.kid.clone();
                    msg.from = Some(snd.did.clone());
                    msg.from_prior = Some(from_prior_token(r, &s.parties[3], &snd.did).0);
                    what.push("sent by the DID rotated from");
                    reject = true;
                }
            }
            _ => {}
        }
    }
    let payload = gmsg::message_json(&msg);
    let mut t = payload.to_string();
    if sign {
        let owner = if r.chance(1, 4) { evil } else { snd };
        let mut k = r.pick(&owner.auth).clone();
        let mut kid = k.kid.clone();
        let mut h = json!({"typ": "application/didcomm-signed+json", "alg": k.key.crv.sign_alg()});
        let mut extra = None;
        match defect {
            8 => {
                if let Some(x) = owner.extra.iter().chain(&owner.ka).find(|x| matches!(x.key.crv, Crv::Ed25519 | Crv::P256) && !owner.auth.iter().any(|k| k.kid == x.kid)) {
                    k = x.clone();
                    kid = k.kid.clone();
                    h["alg"] = json!(k.key.crv.sign_alg());
                    what.push("signer key not in authentication");
                    reject = true;
                }
            }
            9 => {
                k = KeyEntry { key: Key::gen(r, k.key.crv), ..k.clone() };
                what.push("signature by another key");
                reject = true;
            }
            10 => {
                kid = owner.did.clone();
                what.push("signer id without fragment");
                reject = true;
            }
            11 => {
                let other = ["EdDSA", "ES256", "ES256K"].iter().find(|a| **a != k.key.crv.sign_alg()).unwrap().to_string();
                h["alg"] = json!(other);
                what.push("alg of another key type");
                reject = true;
            }
            12 => {
                h["alg"] = json!(*r.pick(&["none", "HS256", "eddsa", "ES384", ""]));
                what.push("unknown alg");
                reject = true;
            }
            13 => {
                // second signature that does not verify, before or after the good one
                let bad = KeyEntry { key: Key::gen(r, evil.auth[0].key.crv), ..evil.auth[0].clone() };
                extra = Some((r.bool(), bad));
                what.push("a bad signature beside a good one");
                reject = true;
            }
            14 => {
                kid = format!("{}#nokey", owner.did);
                what.push("signer key id not in the document");
                reject = true;
            }
            _ => {}
        }
        let mut signers = vec![(kid.clone(), k.key.clone(), h.clone())];
        if let Some((first, b)) = extra {
            // signs something else: its signature does not cover this payload
            let x = (b.kid.clone(), b.key.clone(), json!({"typ": "application/didcomm-signed+json", "alg": b.key.crv.sign_alg()}));
            signers.insert(if first { 0 } else { 1 }, x);
        }
        t = jws_with(t.as_bytes(), &signers).to_string();
        e.signer = Some((kid, k.key.crv));
    }
    if auth {
        t = jwe(r, "A256CBC-HS512", &recips, Some((&skid, &sk.key)), t.as_bytes());
        e.auth = Some(skid.clone());
        e.to = Some(kids.clone());
    }
    if anon {
        let enc = *r.pick(&ENCS);
        t = jwe(r, enc, &recips, None, t.as_bytes());
        e.anon = Some(enc.into());
        e.to = Some(kids.clone());
    }
    e.payload = Some(payload);
    let layers = format!("{}{}{}", if anon { "anon " } else { "" }, if auth { "auth " } else { "" }, if sign { "sign" } else { "" });
    Craft { text: t, expect: if reject { None } else { Some(e) }, msg, what: format!("{layers}: {}", if what.is_empty() { "sound".into() } else { what.join(",") }) }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Messages packed by the library, and messages layered by an independent implementation with at most one defect (sender or signer
         key not authorised, other key material, other sender named, wrong or unknown algorithm, a bad second signature), are unpacked;
         a sound message must be reported with exactly the metadata its layers establish, a defective one must be refused. Distinct by
         layers, defect and message structure.",
    );
    run.assume("askar-crypto is replaced by a stand-in over OpenSSL (the real crate is not available offline).");
    let n = run.cfg.n(4000, 150_000);
    run.cases("own", n, |_, r, obs| {
        let s = scn(r, &Knobs { dual: true, to_self: 12, ..Default::default() });
        let p = match must_pack(&s, obs) {
            Some(p) => p,
            None => return,
        };
        let inner = match s.deliver(&p.text) {
            Ok(m) => m,
            Err(_) => return obs.count("not delivered (judged elsewhere)"),
        };
        let sr = Sr::party(&s.parties[1]).reversed(r.bool());
        let o = opts(r.bool(), r.bool());
        obs.eval(&s.shape());
        match unpack(&inner, &s.dr(), &sr, &o) {
            Ok(Ok((_, m))) => {
                obs.count(&format!("reported {:?}", s.mode));
                if let Err(x) = judge(&expect_of(&s, &p), &m, &|k| s.public(k)) {
                    obs.violation(format!("untrue-metadata {}", x.split(':').next().unwrap()), json!({"what": x, "metadata": format!("{m:?}"), "scenario": s.brief(), "packed": inner}));
                }
            }
            x => obs.violation("not-unpacked", json!({"result": format!("{x:?}"), "scenario": s.brief()})),
        }
    });
    let n = run.cfg.n(3000, 100_000);
    run.cases("forwarded", n, |_, r, obs| crate::c22::case(r, obs, true));
    run.require("unwrapped", 200);
    let n = run.cfg.n(8000, 300_000);
    run.cases("crafted", n, |_, r, obs| {
        let mode = Some(if r.bool() { Mode::Auth } else { Mode::Anon });
        let s = scn(r, &Knobs { mode, routed: Some(false), dual: true, to_self: 12, ..Default::default() });
        let c = craft(r, &s);
        // an anonymously encrypted or merely signed message may name any sender
        let o = opts(r.bool(), r.bool());
        obs.eval(&format!("{}{}", c.what, gmsg::shape(&c.msg)));
        obs.count(&format!("crafted {}", c.what));
        let sr = Sr::party(&s.parties[1]);
        match (unpack(&c.text, &s.dr(), &sr, &o), &c.expect) {
            (Ok(Ok((m, meta))), Some(e)) => {
                if !gmsg::same(&m, &c.msg) {
                    obs.violation("message-changed", json!({"sent": gmsg::message_json(&c.msg), "got": gmsg::message_json(&m)}));
                }
                if let Err(x) = judge(e, &meta, &|k| s.public(k)) {
                    obs.violation(format!("untrue-metadata {}", x.split(':').next().unwrap()), json!({"what": x, "layers": c.what, "metadata": format!("{meta:?}"), "message": c.text}));
                }
            }
            (Ok(Ok((_, meta))), None) => obs.violation(format!("accepted {}", c.what.split(": ").nth(1).unwrap_or("")), json!({"layers": c.what, "metadata": format!("{meta:?}"), "message": c.text, "scenario": s.brief()})),
            (Ok(Err(e)), Some(_)) => obs.violation("sound-message-refused", json!({"error": format!("{e:?}"), "layers": c.what, "message": c.text, "scenario": s.brief()})),
            (Ok(Err(_)), None) => obs.count("refused"),
            (Err(a), _) => obs.violation("abnormal", json!({"what": a.to_string(), "message": c.text})),
        }
        obs.sample(|| json!({"layers": c.what}));
    });
    run.require("refused", 300);
}
