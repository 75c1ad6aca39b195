//! C10: every failure keeps or gets the kind it should have.
#[path = "../../shared/c10e.rs"]
mod c10e;
use crate::{
    dc::{
        did::DIDDoc,
        error::{ErrorKind, Result},
        protocols::routing::wrap_in_forward,
        FromPrior, Message, UnpackOptions,
    },
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use c10e::KINDS;
use serde_json::{json, Value};
use std::sync::{atomic::Ordering, Arc};
use vcommon::{gen, Abnormal, Obs, Rng, Runner};

type Out = std::result::Result<Result<String>, Abnormal>;

/// An operation with everything it needs, to be repeated against resolvers that fail.
pub struct Op {
    pub name: String,
    pub dr: Dr,
    pub sr: Sr,
    /// A resolver that finds nothing changes the answer legitimately (looking for keys to unwrap a forward with).
    pub optional: bool,
    pub f: Box<dyn Fn(&Dr, &Sr) -> Out + Send + Sync>,
    pub shape: String,
}

fn rewrap(r: &mut Rng, text: &str, s: &Scn, n: usize) -> Option<String> {
    let rc = &s.parties[1];
    let kids: Vec<String> = rc.ka.iter().map(|k| k.kid.clone()).collect();
    let mut t = text.to_string();
    for _ in 0..n {
        let next = sub(r, &rc.did, &kids, 5);
        let key = sub(r, &rc.did, &kids, 5);
        let alg = r.pick(&ANON).clone();
        t = crate::world::run(wrap_in_forward(&t, None, &next, &vec![key], &alg, &s.dr())).ok()?.ok()?;
    }
    Some(t)
}

pub fn op(r: &mut Rng) -> Option<Op> {
    let what = r.below(9);
    match what {
        0..=2 => {
            let s = scn(r, &Knobs { small: true, ..Default::default() });
            let (dr, sr, shape) = (s.dr(), s.sender_sr(), s.shape());
            Some(Op { name: format!("pack {:?}", s.mode), dr, sr, optional: false, shape, f: Box::new(move |d, k| s.pack_with(d, k).map(|x| x.map(|p| p.text))) })
        }
        3..=5 => {
            let s = scn(r, &Knobs { small: true, ..Default::default() });
            let p = s.pack().ok()?.ok()?;
            let inner = s.deliver(&p.text).ok()?;
            let enc = matches!(s.mode, Mode::Anon | Mode::Auth);
            let n = if enc { *r.pick(&[0, 0, 1, 2]) } else { 0 };
            let t = rewrap(r, &inner, &s, n)?;
            let (dr, sr, shape) = (s.dr(), Sr::party(&s.parties[1]).reversed(r.bool()), format!("{}w{n}", s.shape()));
            let o = opts(r.bool(), n > 0 || r.bool());
            Some(Op { name: format!("unpack {:?} wrapped {n}", s.mode), dr, sr, optional: n > 0, shape, f: Box::new(move |d, k| unpack(&t, d, k, &o).map(|x| x.map(|m| gmsg::message_json(&m.0).to_string()))) })
        }
        6 => {
            let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
            let s = scn(r, &Knobs { small: true, routed: Some(true), mode, ..Default::default() });
            let p = s.pack().ok()?.ok()?;
            let (dr, sr, shape) = (s.dr(), Sr::party(s.owner(&s.route[0])?), s.shape());
            Some(Op { name: "mediator".into(), dr, sr, optional: true, shape, f: Box::new(move |d, k| unpack(&p.text, d, k, &UnpackOptions::default()).map(|x| x.map(|m| m.0.id))) })
        }
        7 => {
            let s = scn(r, &Knobs { small: true, ..Default::default() });
            let (iss, subj) = (s.parties[3].clone(), s.parties[0].did.clone());
            let kid = if r.bool() { Some(r.pick(&iss.auth).kid.clone()) } else { None };
            let fp = FromPrior { iss: iss.did.clone(), sub: subj, aud: None, exp: None, nbf: None, iat: None, jti: None };
            let (dr, sr) = (s.dr(), Sr::party(&iss));
            if r.bool() {
                let shape = format!("fp pack{}{:?}", kid.is_some(), iss.auth.iter().map(|k| k.key.crv).collect::<Vec<_>>());
                Some(Op { name: "from_prior pack".into(), dr, sr, optional: false, shape, f: Box::new(move |d, k| crate::world::run(async { Ok(fp.pack(kid.as_deref(), d, k).await?.0) })) })
            } else {
                let (t, _) = crate::world::run(fp.pack(kid.as_deref(), &dr, &sr)).ok()?.ok()?;
                let shape = format!("fp unpack{:?}", iss.auth.iter().map(|k| k.key.crv).collect::<Vec<_>>());
                Some(Op { name: "from_prior unpack".into(), dr, sr, optional: false, shape, f: Box::new(move |d, _| crate::world::run(async { Ok(FromPrior::unpack(&t, d).await?.1) })) })
            }
        }
        _ => {
            let meds: Vec<Party> = (0..3)
                .map(|_| {
                    let c = curves(r);
                    party(r, &c)
                })
                .collect();
            let n = r.range(1, 3);
            let keys: Vec<String> = (0..n)
                .map(|i| {
                    let kids: Vec<String> = meds[i].ka.iter().map(|k| k.kid.clone()).collect();
                    sub(r, &meds[i].did, &kids, 5)
                })
                .collect();
            let alg = r.pick(&ANON).clone();
            let shape = format!("wrap{n}{}{}", anon_enc(&alg), keys.iter().filter(|k| k.contains('#')).count());
            Some(Op {
                name: "wrap_in_forward".into(),
                dr: Dr::new(&meds),
                sr: Sr::none(),
                optional: false,
                shape,
                f: Box::new(move |d, _| crate::world::run(wrap_in_forward("{\"a\":1}", None, "did:example:x", &keys, &alg, d))),
            })
        }
    }
}

fn faults(c: u64, r: &mut Rng, obs: &mut Obs) {
    let op = match op(r) {
        Some(o) => o,
        None => return obs.harness_errors.push(format!("operation {c} could not be set up")),
    };
    let ctl = Arc::new(Ctl::default());
    let (d, k) = (op.dr.with(&ctl), op.sr.with(&ctl));
    match (op.f)(&d, &k) {
        Ok(Ok(_)) => {}
        o => return obs.violation("honest operation failed", json!({"operation": op.name, "got": format!("{o:?}")})),
    }
    let log = ctl.log.lock().unwrap().clone();
    let n = log.len();
    obs.countn("resolver calls", n as u64);
    for i in 0..n {
        let mut ks: Vec<usize> = (0..9).collect();
        r.shuffle(&mut ks);
        for &ki in &ks[..3] {
            let (kind, name) = KINDS[ki];
            ctl.reset();
            *ctl.fault.lock().unwrap() = Some((i, Fault::Err(kind)));
            let got = (op.f)(&d, &k);
            let fired = ctl.fired.load(Ordering::SeqCst) == 1;
            let call = log[i].split(' ').next().unwrap().to_string();
            let w = || json!({"operation": op.name, "shape": op.shape, "calls": log, "failing call": i, "kind": name, "got": format!("{got:?}")});
            if !fired {
                // the order of calls is the same on every run of the same operation, unless an operation is not deterministic
                obs.count("fault not reached");
                continue;
            }
            obs.eval(&format!("{}{i}/{n}{call}{name}", op.name));
            obs.count(&format!("{call} failed"));
            match &got {
                Ok(Err(e)) => {
                    obs.check(e.kind() == kind, &format!("resolver error kind lost ({call})"), w);
                }
                Ok(Ok(_)) => obs.violation(format!("resolver error swallowed ({call})"), w()),
                Err(_) => obs.violation("abnormal", w()),
            }
        }
        // the resolver says there is no such thing
        let call = log[i].split(' ').next().unwrap().to_string();
        if op.optional {
            continue;
        }
        ctl.reset();
        *ctl.fault.lock().unwrap() = Some((i, Fault::Nothing));
        let got = (op.f)(&d, &k);
        if ctl.fired.load(Ordering::SeqCst) != 1 {
            continue;
        }
        obs.eval(&format!("{}{i}/{n}{call}nothing", op.name));
        obs.count(&format!("{call} found nothing"));
        let w = || json!({"operation": op.name, "shape": op.shape, "calls": log, "empty call": i, "got": format!("{got:?}")});
        match &got {
            Ok(Err(e)) => {
                let want = match call.as_str() {
                    "resolve" => Some(ErrorKind::DIDNotResolved),
                    "find" => Some(ErrorKind::SecretNotFound),
                    _ => None,
                };
                if let Some(k) = want {
                    obs.check(e.kind() == k, &format!("nothing found, reported as another kind ({call})"), w);
                }
            }
            Ok(Ok(_)) => obs.violation(format!("nothing found, yet succeeded ({call})"), w()),
            Err(_) => obs.violation("abnormal", w()),
        }
    }
    *ctl.fault.lock().unwrap() = None;
    ctl.reset();
    let again = (op.f)(&d, &k);
    obs.check(matches!(again, Ok(Ok(_))), "a failure left something behind", || json!({"operation": op.name, "got": format!("{again:?}")}));
}

fn without(d: DIDDoc, kid: &str, list: &str) -> DIDDoc {
    let mut d = d;
    match list {
        "ka" => d.key_agreement.retain(|k| k != kid),
        "auth" => d.authentication.retain(|k| k != kid),
        _ => d.verification_method.retain(|k| k.id != kid),
    }
    d
}

/// The same documents with the document of `p` replaced or dropped.
fn docs(s: &Scn, p: usize, d: Option<DIDDoc>) -> Dr {
    Dr::of(s.parties.iter().enumerate().filter_map(|(i, x)| if i == p { d.clone() } else { Some(x.doc()) }))
}

fn flip(r: &mut Rng, t: &str) -> String {
    let mut b = unb64(t).unwrap_or_default();
    if b.is_empty() {
        return "AAAA".into();
    }
    let i = r.below(b.len());
    b[i] ^= 1 << r.below(8);
    b64(&b)
}

fn canonical(r: &mut Rng, obs: &mut Obs) {
    use ErrorKind::*;
    let (what, want, shape, got): (String, ErrorKind, String, Out);
    let mut ctx = json!(null);
    if r.bool() {
        // packing
        let want_mode = *r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth, Mode::Auth]);
        let s = scn(r, &Knobs { mode: Some(want_mode), small: true, ..Default::default() });
        let mut s2 = s.clone();
        let (mut dr, mut sr) = (s.dr(), s.sender_sr());
        let mut c: Vec<&str> = vec![];
        if s.mode != Mode::Signed {
            c.extend(["recipient unresolvable", "to names a missing key"]);
            if !s.route.is_empty() {
                c.extend(["hop unresolvable", "hop key missing"]);
            }
        }
        if s.mode == Mode::Auth {
            c.extend(["sender unresolvable", "from names a missing key", "no sender secret", "no common curve"]);
        }
        if s.sign_by.is_some() {
            c.extend(["signer unresolvable", "sign_by names a missing key", "no signing secret"]);
        }
        if s.from_prior_claims.is_some() {
            c.extend(["issuer unresolvable", "issuer key missing", "from_prior garbage", "from_prior signature", "from_prior alg"]);
        }
        let w = *r.pick(&c);
        want = match w {
            "recipient unresolvable" => {
                dr = docs(&s, 1, None);
                DIDNotResolved
            }
            "sender unresolvable" => {
                dr = docs(&s, 0, None);
                DIDNotResolved
            }
            "signer unresolvable" => {
                if s.signer == 0 && s.mode == Mode::Auth {
                    return;
                }
                dr = docs(&s, s.signer, None);
                DIDNotResolved
            }
            "issuer unresolvable" => {
                dr = docs(&s, 3, None);
                DIDNotResolved
            }
            "hop unresolvable" | "hop key missing" => {
                let h = r.pick(&s.route).clone();
                let d = h.split('#').next().unwrap();
                let i = s.parties.iter().position(|p| p.did == d).unwrap();
                if w == "hop unresolvable" {
                    dr = docs(&s, i, None);
                    DIDNotResolved
                } else {
                    if !h.contains('#') {
                        return;
                    }
                    dr = docs(&s, i, Some(without(s.parties[i].doc(), &h, "ka")));
                    DIDUrlNotFound
                }
            }
            "to names a missing key" => {
                s2.to = match r.below(3) {
                    0 => format!("{}#nokey", s.parties[1].did),
                    1 => s.parties[1].auth[0].kid.clone(),
                    _ => format!("{}x", s.parties[1].ka[0].kid),
                };
                DIDUrlNotFound
            }
            "from names a missing key" => {
                s2.from = Some(match r.below(3) {
                    0 => format!("{}#nokey", s.parties[0].did),
                    1 => s.parties[0].auth[0].kid.clone(),
                    _ => format!("{}x", s.parties[0].ka[0].kid),
                });
                DIDUrlNotFound
            }
            "sign_by names a missing key" => {
                let p = &s.parties[s.signer];
                s2.sign_by = Some(match r.below(3) {
                    0 => format!("{}#nokey", p.did),
                    1 => p.ka[0].kid.clone(),
                    _ => format!("{}x", p.auth[0].kid),
                });
                DIDUrlNotFound
            }
            "no sender secret" => {
                sr = Sr::keys(s.parties[0].auth.iter().chain(&s.parties[2].auth));
                SecretNotFound
            }
            "no common curve" => {
                let a = *r.pick(&[Crv::X25519, Crv::P256]);
                let b = if a == Crv::P256 { Crv::X25519 } else { Crv::P256 };
                for (p, c) in [(0, a), (1, b)] {
                    for k in s2.parties[p].ka.iter_mut() {
                        k.key = Key::gen(r, c);
                    }
                }
                let (from, to) = (r.pick(&s2.parties[0].ka).kid.clone(), r.pick(&s2.parties[1].ka).kid.clone());
                let whole = (r.bool(), r.bool());
                s2.from = Some(if whole.0 { s2.parties[0].did.clone() } else { from });
                s2.to = if whole.1 { s2.parties[1].did.clone() } else { to };
                if let Some(l) = &mut s2.msg.to {
                    *l = vec![s2.parties[1].did.clone()];
                }
                // every key of the sender is held
                (dr, sr) = (s2.dr(), Sr::keys(s2.parties[0].ka.iter().chain(&s2.parties[0].auth).chain(&s2.parties[2].auth)));
                NoCompatibleCrypto
            }
            "no signing secret" => {
                sr = Sr::keys(&s.parties[0].ka);
                SecretNotFound
            }
            "issuer key missing" => {
                let kid = s.from_prior_claims.as_ref().unwrap().1.clone();
                let list = if r.bool() { "auth" } else { "both" };
                let mut d = without(s.parties[3].doc(), &kid, "auth");
                if list == "both" {
                    d = without(d, &kid, "vm");
                }
                dr = docs(&s, 3, Some(d));
                DIDUrlNotFound
            }
            "from_prior garbage" => {
                s2.msg.from_prior = Some((*r.pick(&["", "a.b.c", "e30.e30.", "not a token", "e30.e30.AAAA"])).to_string());
                Malformed
            }
            "from_prior signature" => {
                let t = s.msg.from_prior.clone().unwrap();
                let p: Vec<&str> = t.split('.').collect();
                s2.msg.from_prior = Some(format!("{}.{}.{}", p[0], p[1], flip(r, p[2])));
                Malformed
            }
            _ => {
                let (cl, kid) = s.from_prior_claims.clone().unwrap();
                let k = s.parties[3].key(&kid).unwrap().key.clone();
                s2.msg.from_prior = Some(jwt(&json!({"typ": "JWT", "alg": r.pick(&["none", "HS256", "RS256", "ES384"]), "kid": kid}), cl.to_string().as_bytes(), &k));
                Unsupported
            }
        };
        ctx = s2.brief();
        got = s2.pack_with(&dr, &sr).map(|x| x.map(|p| p.text));
        shape = s.shape();
        what = format!("packing: {w}");
    } else {
        // unpacking
        let want_mode = *r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth, Mode::Auth]);
        let s = scn(r, &Knobs { mode: Some(want_mode), small: true, routed: Some(false), ..Default::default() });
        let text = match s.pack() {
            Ok(Ok(p)) => p.text,
            _ => return,
        };
        let p = match s.peel(&text, 0) {
            Ok(p) => p,
            Err(e) => return obs.violation("not readable", json!(e)),
        };
        let (mut dr, mut sr) = (s.dr(), Sr::party(&s.parties[1]));
        let mut t = text.clone();
        let enc = s.mode != Mode::Signed;
        let auth = s.mode == Mode::Auth;
        let skid = p.inner.iter().find_map(|o| o.header.get("skid").and_then(|v| v.as_str())).map(|v| v.to_string());
        let mut c = vec!["not a message", "truncated", "plaintext lacks a member", "plaintext is of another type"];
        if enc {
            c.extend(["no secret", "content altered", "content altered", "wrapped keys altered", "apv altered", "unknown alg", "unknown enc", "enc not base64"]);
        }
        if auth {
            c.extend(["sender unresolvable", "sender key missing", "content algorithm not for authcrypt"]);
        }
        if p.signed.is_some() {
            c.extend(["signer unresolvable", "signer key missing", "signature altered", "payload altered", "unknown signature alg"]);
        }
        if s.from_prior_claims.is_some() {
            c.extend(["issuer unresolvable", "issuer key missing"]);
        }
        let w = *r.pick(&c);
        let rc: Vec<(String, Key)> = p.inner.first().map(|o| o.kids.iter().map(|k| (k.clone(), s.parties[1].key(k).unwrap().key.clone())).collect()).unwrap_or_default();
        // an inner text, encrypted again
        let seal = |r: &mut Rng, inner: &str| -> String {
            if rc.is_empty() {
                inner.to_string()
            } else if auth {
                let k = skid.clone().unwrap();
                jwe(r, "A256CBC-HS512", &rc, Some((&k, &s.parties[0].key(&k).unwrap().key)), inner.as_bytes())
            } else {
                let e = *r.pick(&ENCS);
                jwe(r, e, &rc, None, inner.as_bytes())
            }
        };
        let signed_text = p.signed.as_ref().map(|x| x.1.clone());
        want = match w {
            "no secret" => {
                sr = Sr::keys(s.parties[1].auth.iter().chain(s.parties[0].all()));
                SecretNotFound
            }
            "sender unresolvable" => {
                dr = docs(&s, 0, None);
                DIDNotResolved
            }
            "sender key missing" => {
                let l = if r.bool() { "ka" } else { "vm" };
                dr = docs(&s, 0, Some(without(s.parties[0].doc(), skid.as_ref().unwrap(), l)));
                DIDUrlNotFound
            }
            "signer unresolvable" => {
                dr = docs(&s, s.signer, None);
                DIDNotResolved
            }
            "signer key missing" => {
                let l = if r.bool() { "auth" } else { "vm" };
                let kid = &p.signed.as_ref().unwrap().0.kid;
                dr = docs(&s, s.signer, Some(without(s.parties[s.signer].doc(), kid, l)));
                DIDUrlNotFound
            }
            "issuer unresolvable" => {
                dr = docs(&s, 3, None);
                DIDNotResolved
            }
            "issuer key missing" => {
                let kid = s.from_prior_claims.as_ref().unwrap().1.clone();
                dr = docs(&s, 3, Some(without(s.parties[3].doc(), &kid, "auth")));
                DIDUrlNotFound
            }
            "not a message" => {
                t = match r.below(6) {
                    0 => gen::text(r),
                    1 => String::new(),
                    2 => gen::json(r, 2).to_string(),
                    3 => format!("{t}}}"),
                    4 => format!("[{t}]"),
                    _ => format!("x{t}"),
                };
                if enc && r.chance(1, 3) {
                    t = seal(r, &t);
                }
                Malformed
            }
            "truncated" => {
                t = t[..r.below(t.len())].to_string();
                Malformed
            }
            "plaintext lacks a member" | "plaintext is of another type" => {
                let mut v = p.plaintext.clone();
                if w == "plaintext lacks a member" {
                    v.as_object_mut().unwrap().remove(*r.pick(&["id", "type", "body"]));
                } else {
                    v["typ"] = json!(r.pick(&["application/json", "application/didcomm-signed+json", "", "JWM"]));
                }
                let mut inner = v.to_string();
                if p.signed.is_some() {
                    let kid = p.signed.as_ref().unwrap().0.kid.clone();
                    inner = jws(inner.as_bytes(), &kid, &s.parties[s.signer].key(&kid).unwrap().key).to_string();
                }
                t = seal(r, &inner);
                Malformed
            }
            "content altered" => {
                let mut v: Value = serde_json::from_str(&t).unwrap();
                let m = *r.pick(&["iv", "ciphertext", "tag"]);
                v[m] = json!(flip(r, v[m].as_str().unwrap()));
                t = v.to_string();
                ctx = json!(m);
                Malformed
            }
            "enc not base64" => {
                let mut v: Value = serde_json::from_str(&t).unwrap();
                let m = *r.pick(&["iv", "ciphertext", "tag", "protected"]);
                v[m] = json!(format!("{}{}", v[m].as_str().unwrap(), r.pick(&["+", "/", " ", "é", "A+/A", "==="])));
                t = v.to_string();
                ctx = json!(m);
                Malformed
            }
            "wrapped keys altered" => {
                let mut v: Value = serde_json::from_str(&t).unwrap();
                for x in v["recipients"].as_array_mut().unwrap() {
                    x["encrypted_key"] = json!(flip(r, x["encrypted_key"].as_str().unwrap()));
                }
                t = v.to_string();
                Malformed
            }
            "apv altered" | "unknown alg" | "unknown enc" | "content algorithm not for authcrypt" => {
                let mut plan = if auth {
                    let k = skid.clone().unwrap();
                    Plan::new(r, "A256CBC-HS512", &rc, Some((&k, &s.parties[0].key(&k).unwrap().key)))
                } else {
                    let e = *r.pick(&ENCS);
                    Plan::new(r, e, &rc, None)
                };
                let k = match w {
                    "apv altered" => {
                        let a = flip(r, plan.header["apv"].as_str().unwrap());
                        plan.header.insert("apv".into(), json!(a));
                        Malformed
                    }
                    "unknown alg" => {
                        let a = *r.pick(&["ECDH-ES", "ECDH-ES+A128KW", "ECDH-1PU", "ecdh-es+a256kw", "dir", "RSA-OAEP", "none", ""]);
                        plan.header.insert("alg".into(), json!(a));
                        Unsupported
                    }
                    "unknown enc" => {
                        let a = *r.pick(&["A128GCM", "A192CBC-HS384", "C20P", "a256gcm", "A256CBC-HS256", ""]);
                        plan.header.insert("enc".into(), json!(a));
                        Unsupported
                    }
                    _ => {
                        let e = *r.pick(&["A256GCM", "XC20P"]);
                        plan.header.insert("enc".into(), json!(e));
                        plan.enc = e.into();
                        plan.cek = r.bytes(cek_len(e));
                        plan.iv = r.bytes(iv_len(e));
                        Unsupported
                    }
                };
                t = plan.seal(p.plaintext.to_string().as_bytes()).text();
                k
            }
            _ => {
                let mut v: Value = serde_json::from_str(signed_text.as_ref().unwrap()).unwrap();
                let k = match w {
                    "signature altered" => {
                        let g = flip(r, v["signatures"][0]["signature"].as_str().unwrap());
                        v["signatures"][0]["signature"] = json!(g);
                        Malformed
                    }
                    "payload altered" => {
                        let g = flip(r, v["payload"].as_str().unwrap());
                        v["payload"] = json!(g);
                        Malformed
                    }
                    _ => {
                        let kid = p.signed.as_ref().unwrap().0.kid.clone();
                        let key = s.parties[s.signer].key(&kid).unwrap().key.clone();
                        let a = *r.pick(&["none", "HS256", "RS256", "ES384", "eddsa", "ED25519", ""]);
                        v = jws_with(p.plaintext.to_string().as_bytes(), &[(kid, key, json!({"typ": "application/didcomm-signed+json", "alg": a}))]);
                        Unsupported
                    }
                };
                t = seal(r, &v.to_string());
                k
            }
        };
        let o = opts(r.bool(), r.bool());
        got = unpack(&t, &dr, &sr, &o).map(|x| x.map(|m| gmsg::message_json(&m.0).to_string()));
        if ctx.is_null() {
            ctx = json!(t);
        }
        shape = s.shape();
        what = format!("unpacking: {w}");
    }
    obs.eval(&format!("{what}{shape}"));
    obs.count(&what);
    let w = || json!({"what": what, "expected": format!("{want:?}"), "got": format!("{got:?}"), "context": ctx});
    match &got {
        Ok(Err(e)) => {
            obs.check(e.kind() == want, &format!("kind ({what})"), w);
        }
        Ok(Ok(_)) => obs.violation(format!("succeeded ({what})"), w()),
        Err(_) => obs.violation("abnormal", w()),
    }
}

/// Envelopes made by hand that are wrong in one place: all of them are malformed input.
fn malformed(r: &mut Rng, obs: &mut Obs) {
    let want_mode = *r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth, Mode::Auth]);
    let s = scn(r, &Knobs { mode: Some(want_mode), small: true, routed: Some(false), ..Default::default() });
    let text = match s.pack() {
        Ok(Ok(p)) => p.text,
        _ => return,
    };
    let p = match s.peel(&text, 0) {
        Ok(p) => p,
        Err(e) => return obs.violation("not readable", json!(e)),
    };
    let plain = p.plaintext.to_string();
    const BAD64: [&str; 6] = ["+", "/", "é", "A+/A", "===", " "];
    let auth = s.mode == Mode::Auth;
    let mut jws_defect = |r: &mut Rng, obs: &mut Obs, kid: &str, key: &Key| -> String {
        let h = json!({"typ": "application/didcomm-signed+json", "alg": key.crv.sign_alg()});
        let mut v = jws_with(plain.as_bytes(), &[(kid.to_string(), key.clone(), h.clone())]);
        let w = *r.pick(&["signature not base64", "header not base64", "header not JSON", "header without alg", "no signatures", "two signatures", "payload not base64", "payload not UTF-8", "kid is a DID", "member missing", "signature member missing", "member of another type"]);
        match w {
            "signature not base64" | "header not base64" => {
                let m = if w.starts_with('s') { "signature" } else { "protected" };
                let x = format!("{}{}", v["signatures"][0][m].as_str().unwrap(), r.pick(&BAD64));
                v["signatures"][0][m] = json!(x)
            }
            "header not JSON" => v["signatures"][0]["protected"] = json!(b64(&h.to_string().as_bytes()[..h.to_string().len() - 1])),
            "header without alg" => v = jws_with(plain.as_bytes(), &[(kid.to_string(), key.clone(), json!({"typ": "application/didcomm-signed+json"}))]),
            "no signatures" => v["signatures"] = json!([]),
            "two signatures" => v = jws_with(plain.as_bytes(), &[(kid.to_string(), key.clone(), h.clone()), (kid.to_string(), key.clone(), h)]),
            "payload not base64" => {
                let x = format!("{}{}", v["payload"].as_str().unwrap(), r.pick(&BAD64));
                let sig = key.sign(format!("{}.{x}", v["signatures"][0]["protected"].as_str().unwrap()).as_bytes());
                v["payload"] = json!(x);
                v["signatures"][0]["signature"] = json!(b64(&sig));
            }
            "payload not UTF-8" => v = jws_with(&[plain.as_bytes(), &[0xff]].concat(), &[(kid.to_string(), key.clone(), h)]),
            "kid is a DID" => v["signatures"][0]["header"]["kid"] = json!(kid.split('#').next().unwrap()),
            "member missing" => {
                v.as_object_mut().unwrap().remove(*r.pick(&["payload", "signatures"]));
            }
            "signature member missing" => {
                v["signatures"][0].as_object_mut().unwrap().remove(*r.pick(&["protected", "signature", "header"]));
            }
            _ => {
                let m = *r.pick(&["payload", "signatures"]);
                v[m] = json!(r.u64())
            }
        }
        obs.count(&format!("malformed signature: {w}"));
        v.to_string()
    };
    let signed = p.signed.as_ref().map(|x| (x.0.kid.clone(), s.parties[s.signer].key(&x.0.kid).unwrap().key.clone()));
    let rc: Vec<(String, Key)> = p.inner.first().map(|o| o.kids.iter().map(|k| (k.clone(), s.parties[1].key(k).unwrap().key.clone())).collect()).unwrap_or_default();
    let t = if let (true, Some((kid, key))) = (rc.is_empty() || r.chance(1, 3), &signed) {
        let inner = jws_defect(r, obs, kid, key);
        if rc.is_empty() {
            inner
        } else {
            jwe(r, "A256CBC-HS512", &rc, None, inner.as_bytes())
        }
    } else if rc.is_empty() {
        return;
    } else {
        let skid = p.inner.iter().find_map(|o| o.header.get("skid").and_then(|v| v.as_str())).map(|v| v.to_string());
        let sender = skid.as_ref().map(|k| (k.as_str(), &s.parties[0].key(k).unwrap().key)).filter(|_| auth);
        let e = if sender.is_some() { "A256CBC-HS512" } else { *r.pick(&ENCS) };
        let mut plan = Plan::new(r, e, &rc, sender);
        let mut pt = plain.clone().into_bytes();
        let mut c = vec!["apv not base64", "apu not base64", "apu not UTF-8", "apu is not skid", "skid without apu", "apv of others", "header member missing", "header member of another type", "header not JSON", "epk broken", "member missing", "member of another type", "recipient member missing", "no recipients", "recipients of two DIDs", "recipient is a DID", "wrapped key not base64", "wrapped key cut", "content not UTF-8"];
        if sender.is_some() {
            c.extend(["no sender named", "sender is a DID"]);
        }
        let w = *r.pick(&c);
        let apv = |k: &[&str]| json!(b64(&crate::refjose::apv_of(k)));
        match w {
            "apv not base64" | "apu not base64" => {
                let k = &w[..3];
                let x = format!("{}{}", plan.header.get(k).and_then(|v| v.as_str()).unwrap_or(""), r.pick(&BAD64));
                plan.header.insert(k.into(), json!(x));
            }
            "apu not UTF-8" => {
                let mut b = skid.clone().unwrap_or_default().into_bytes();
                b.push(0xc3);
                plan.header.insert("apu".into(), json!(b64(&b)));
                if r.bool() {
                    plan.header.remove("skid");
                }
            }
            "apu is not skid" => {
                let k = skid.clone().unwrap_or("did:example:a#b".into());
                plan.header.insert("skid".into(), json!(k));
                let a = match r.below(5) {
                    0 => k[..k.len() - 1].to_string(),
                    1 => format!("{k}x"),
                    2 => k.split('#').next().unwrap().to_string(),
                    3 => k.to_uppercase(),
                    _ => String::new(),
                };
                plan.header.insert("apu".into(), json!(b64(a.as_bytes())));
            }
            "skid without apu" => {
                plan.header.insert("skid".into(), json!(skid.clone().unwrap_or("did:example:a#b".into())));
                plan.header.remove("apu");
            }
            "no sender named" => {
                plan.header.remove("skid");
                plan.header.remove("apu");
            }
            "sender is a DID" => {
                let d = s.parties[0].did.clone();
                plan.header.insert("apu".into(), json!(b64(d.as_bytes())));
                if r.bool() {
                    plan.header.insert("skid".into(), json!(d));
                } else {
                    plan.header.remove("skid");
                }
            }
            "apv of others" => {
                let mut k: Vec<&str> = rc.iter().map(|x| x.0.as_str()).collect();
                if r.bool() {
                    k.pop();
                } else {
                    k.push("did:example:other#1");
                }
                plan.header.insert("apv".into(), apv(&k));
            }
            "header member missing" => {
                plan.header.remove(*r.pick(&["alg", "enc", "apv", "epk"]));
            }
            "header member of another type" => {
                let k = *r.pick(&["typ", "alg", "enc", "apv", "skid", "apu"]);
                let v = r.pick(&[json!(1), json!(["x"]), json!({})]).clone();
                plan.header.insert(k.into(), v);
            }
            "epk broken" => {
                let mut e = plan.header["epk"].clone();
                match r.below(5) {
                    0 => {
                        e.as_object_mut().unwrap().remove("x");
                    }
                    1 => e["x"] = json!("AAAA"),
                    2 => e["x"] = json!("*"),
                    3 => e = json!("x"),
                    _ => e["x"] = json!(7),
                }
                plan.header.insert("epk".into(), e);
            }
            "content not UTF-8" => pt.push(0xff),
            "recipients of two DIDs" | "recipient is a DID" => {
                let k = if w.starts_with("recipients") { s.parties[2].did.clone() + "#key-x" } else { s.parties[1].did.clone() };
                let key = rc[0].1.clone();
                plan.recips.push((k, key));
                if r.bool() {
                    plan.recips.rotate_right(1);
                }
                let k: Vec<&str> = plan.recips.iter().map(|x| x.0.as_str()).collect();
                let a = apv(&k);
                plan.header.insert("apv".into(), a);
            }
            "no recipients" => {
                plan.recips.clear();
                plan.header.insert("apv".into(), apv(&[]));
            }
            _ => {}
        }
        let h = Value::Object(plan.header.clone()).to_string();
        let mut v = if w == "header not JSON" { plan.seal_with(&h[..h.len() - 1], &pt) } else { plan.seal(&pt) }.json();
        match w {
            "member missing" => {
                v.as_object_mut().unwrap().remove(*r.pick(&["protected", "recipients", "iv", "ciphertext", "tag"]));
            }
            "member of another type" => {
                let k = *r.pick(&["protected", "recipients", "iv", "ciphertext", "tag"]);
                v[k] = json!(r.u64())
            }
            "recipient member missing" => {
                v["recipients"][0].as_object_mut().unwrap().remove(*r.pick(&["header", "encrypted_key"]));
            }
            "wrapped key not base64" | "wrapped key cut" => {
                for x in v["recipients"].as_array_mut().unwrap() {
                    let k = x["encrypted_key"].as_str().unwrap().to_string();
                    x["encrypted_key"] = json!(if w.ends_with("cut") { k[..4 * r.below(k.len() / 4)].to_string() } else { format!("{k}{}", r.pick(&BAD64)) });
                }
            }
            _ => {}
        }
        obs.count(&format!("malformed envelope: {w}"));
        v.to_string()
    };
    let what = format!("{:?}", s.mode);
    let got = unpack(&t, &s.dr(), &Sr::party(&s.parties[1]), &opts(r.bool(), r.bool())).map(|x| x.map(|m| gmsg::message_json(&m.0).to_string()));
    obs.eval(&format!("malformed {what}{}", t.len()));
    match &got {
        Ok(Err(e)) => {
            obs.check(e.kind() == ErrorKind::Malformed, "kind (malformed envelope)", || json!({"text": t, "got": format!("{e:?}")}));
        }
        Ok(Ok(m)) => obs.violation("succeeded (malformed envelope)", json!({"text": t, "got": m})),
        Err(e) => obs.violation("abnormal", json!({"text": t, "got": format!("{e:?}")})),
    }
}

fn from_prior(r: &mut Rng, obs: &mut Obs) {
    use ErrorKind::*;
    let c = curves(r);
    let iss = party(r, &c);
    let subj = did(r);
    let fp = FromPrior { iss: iss.did.clone(), sub: subj, aud: None, exp: None, nbf: None, iat: None, jti: None };
    let kid = r.pick(&iss.auth).kid.clone();
    let (dr, sr) = (Dr::new([&iss]), Sr::party(&iss));
    let none = Dr::of(vec![]);
    let tok = match crate::world::run(fp.pack(Some(&kid), &dr, &sr)) {
        Ok(Ok(t)) => t.0,
        o => return obs.violation("from_prior not packed", json!(format!("{o:?}"))),
    };
    let pk = |k: Option<&str>, d: &Dr, s: &Sr| crate::world::run(async { Ok(fp.pack(k, d, s).await?.0) });
    let up = |t: &str, d: &Dr| crate::world::run(async { Ok(FromPrior::unpack(t, d).await?.1) });
    let seg: Vec<String> = tok.split('.').map(|s| s.to_string()).collect();
    let opt = if r.bool() { Some(kid.as_str()) } else { None };
    let (what, want, got): (&str, ErrorKind, Out) = match r.below(10) {
        0 => ("pack: issuer unresolvable", DIDNotResolved, pk(opt, &none, &sr)),
        1 => ("pack: issuer key missing", DIDUrlNotFound, pk(Some(&format!("{}#nokey", iss.did)), &dr, &sr)),
        2 => ("pack: issuer key is for key agreement", DIDUrlNotFound, pk(Some(&iss.ka[0].kid), &dr, &sr)),
        3 => ("pack: no secret", SecretNotFound, pk(opt, &dr, &Sr::keys(&iss.ka))),
        4 => ("unpack: issuer unresolvable", DIDNotResolved, up(&tok, &none)),
        5 => ("unpack: issuer key not authorised", DIDUrlNotFound, up(&tok, &Dr::of([without(iss.doc(), &kid, "auth")]))),
        6 => ("unpack: signature altered", Malformed, up(&format!("{}.{}.{}", seg[0], seg[1], flip(r, &seg[2])), &dr)),
        7 => {
            let t = match r.below(4) {
                0 => gen::text(r),
                1 => format!("{}.{}", seg[0], seg[1]),
                2 => format!("{tok}.x"),
                _ => tok[..r.below(tok.len() - 40)].to_string(),
            };
            ("unpack: not a token", Malformed, up(&t, &dr))
        }
        8 => {
            let h = json!({"typ": "JWT", "alg": r.pick(&["none", "HS256", "PS256", "es256", "ES512", ""]), "kid": kid});
            let cl = json!({"iss": fp.iss, "sub": fp.sub});
            ("unpack: unknown algorithm", Unsupported, up(&jwt(&h, cl.to_string().as_bytes(), &iss.key(&kid).unwrap().key), &dr))
        }
        _ => {
            let h = json!({"typ": "JWT", "alg": iss.key(&kid).unwrap().key.crv.sign_alg(), "kid": kid});
            let pl: &str = r.pick(&["", "[]", "{}", "{\"iss\":\"did:a:b\"}", "{\"sub\":\"did:a:b\"}", "{\"iss\":1,\"sub\":\"did:a:b\"}", "nope"]);
            ("unpack: claims are no claims", Malformed, up(&jwt(&h, pl.as_bytes(), &iss.key(&kid).unwrap().key), &dr))
        }
    };
    obs.eval(&format!("{what}{:?}{}", iss.key(&kid).unwrap().key.crv, opt.is_some()));
    obs.count(what);
    let w = || json!({"what": what, "expected": format!("{want:?}"), "got": format!("{got:?}"), "token": tok});
    match &got {
        Ok(Err(e)) => {
            obs.check(e.kind() == want, &format!("kind (from_prior {what})"), w);
        }
        Ok(Ok(_)) => obs.violation(format!("succeeded (from_prior {what})"), w()),
        Err(_) => obs.violation("abnormal", w()),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Faults: every resolver call of random pack, unpack, mediator, from_prior and wrap operations fails in turn with error kinds drawn from all nine, and answers that
         there is no such thing; the caller must see that kind. Canonical: unresolvable DIDs, missing key ids, missing secrets, damaged text and unknown algorithms
         at every place of a random scenario must give their own kind. Malformed: envelopes and signatures made by hand and wrong in one place. Distinct by operation, call position, kind, defect and scenario shape.",
    );
    run.assume("A verification method missing while packing, a secret withdrawn between two calls, and a next hop that cannot be resolved are not judged beyond being an error.");
    let n = run.cfg.n(3000, 60_000);
    run.cases("faults", n, |c, r, obs| faults(c, r, obs));
    let n = run.cfg.n(20_000, 300_000);
    run.cases("canonical", n, |_, r, obs| canonical(r, obs));
    let n = run.cfg.n(8000, 150_000);
    run.cases("malformed", n, |_, r, obs| malformed(r, obs));
    let n = run.cfg.n(5000, 80_000);
    run.cases("from_prior", n, |_, r, obs| from_prior(r, obs));
    run.require("resolve failed", 500);
    run.require("find failed", 200);
    run.require("get failed", 200);
    c10e::run(run);
}
