//! C21: the name in the header selects the algorithm, and nothing else is processed.
use crate::{
    c03,
    dc::{FromPrior, Message, UnpackOptions},
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use serde_json::{json, Value};
use vcommon::{gen, Obs, Rng, Runner};

/// Names registered, drafted or in use elsewhere that select nothing here.
const REGISTRY: &[&str] = &[
    "none", "", "dir", "A128GCM", "A192GCM", "A128CBC-HS256", "A192CBC-HS384", "C20P", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A128GCMKW",
    "ECDH-ES+A192GCMKW", "ECDH-ES+A256GCMKW", "ECDH-ES+C20PKW", "ECDH-ES+XC20PKW", "ECDH-1PU", "ECDH-1PU+A128KW", "ECDH-1PU+A192KW", "ECDH-1PU+A256GCMKW",
    "ECDH-1PU+XC20PKW", "ECDH-SS", "ECDH-SS+A256KW", "A128KW", "A192KW", "A256KW", "A256GCMKW", "C20PKW", "XC20PKW", "PBES2-HS512+A256KW", "RSA-OAEP", "RSA-OAEP-256",
    "RSA1_5", "HPKE-Base-X25519-SHA256-AES256GCM", "A256CTR", "A256CBC", "A256CBC+HS512", "A256CCM", "HS256", "HS512", "RS256", "RS512", "ES384", "ES512", "PS256", "PS512",
    "Ed25519", "Ed448", "ES256K-R", "ESP256", "ESB256", "ES", "ECDSA", "Ed25519ph", "EdDSA25519", "Bls12381G1", "Xc20P", "A256cbcHs512", "secp256k1", "P-256", "X25519",
];

/// A spelling that is not the name but close to it.
fn near(r: &mut Rng, name: &str) -> String {
    loop {
        let mut s: Vec<char> = name.chars().collect();
        let i = r.below(s.len());
        let t: String = match r.below(11) {
            0 => name.to_lowercase(),
            1 => format!("{name}{}", r.pick(&[" ", "\0", "=", "x", "2", "-", "\u{200b}"])),
            2 => format!("{}{name}", r.pick(&[" ", "x", "-", "\u{feff}"])),
            3 => {
                s.remove(i);
                s.into_iter().collect()
            }
            4 => {
                let c = s[i];
                s.insert(i, c);
                s.into_iter().collect()
            }
            5 => name.replace('-', "_"),
            6 => name.replace('-', ""),
            7 => name.replace("256", r.pick(&["128", "192", "512"])),
            8 => name.replace('+', r.pick(&["-", " ", "\u{ff0b}", "/"])),
            9 => {
                s[i] = if s[i].is_ascii_lowercase() { s[i].to_ascii_uppercase() } else if s[i].is_ascii_uppercase() { s[i].to_ascii_lowercase() } else { 'O' };
                s.into_iter().collect()
            }
            _ => r.pick(REGISTRY).to_string(),
        };
        if ![ES, PU, "A256CBC-HS512", "A256GCM", "XC20P", "EdDSA", "ES256", "ES256K"].contains(&t.as_str()) {
            return t;
        }
    }
}

/// `all` takes the name of the registry in its place by turns.
fn jwes(all: Option<usize>, r: &mut Rng, obs: &mut Obs) {
    let named = all.map(|i| REGISTRY[i / 8 % REGISTRY.len()].to_string());
    let crv = if r.bool() { Crv::X25519 } else { Crv::P256 };
    let nk = r.range(1, 3);
    let rc = party(r, &vec![crv; nk]);
    let snd = party(r, &[crv]);
    if rc.did == snd.did {
        return;
    }
    let keys: Vec<(String, Key)> = rc.ka.iter().map(|k| (k.kid.clone(), k.key.public())).collect();
    let mut msg = gmsg::message(r);
    (msg.attachments, msg.from, msg.from_prior) = (None, None, None);
    let pt = gmsg::message_json(&msg).to_string();
    let auth = all.map(|i| i % 2 == 1).unwrap_or_else(|| r.bool());
    let enc = if all.is_some() && auth { ENCS[0] } else { *r.pick(&ENCS) };
    let sk = &snd.ka[0];
    let sender = if auth { Some((sk.kid.as_str(), &sk.key)) } else { None };
    let mut plan = Plan::new(r, enc, &keys, sender);
    let honest = !(auth && enc != ENCS[0]);
    let mut ok = honest;
    let mut what = if honest { "honest".to_string() } else { format!("{PU} with {enc}") };
    let how = r.below(9);
    match all.map(|i| 1 + (i / 2 % 2)).unwrap_or(how) {
        0 => {
            // the header names another content algorithm than the one used
            let e = *r.pick(&ENCS);
            plan.header.insert("enc".into(), json!(e));
            ok = honest && e == enc;
            what = format!("enc {e} over {enc}");
        }
        1 => {
            let e = named.unwrap_or_else(|| near(r, enc));
            plan.header.insert("enc".into(), json!(e));
            ok = false;
            what = format!("enc {e:?} over {enc}");
        }
        2 => {
            let a = named.unwrap_or_else(|| near(r, if auth { PU } else { ES }));
            plan.header.insert("alg".into(), json!(a));
            if all.map(|i| i / 4 % 2 == 1).unwrap_or_else(|| r.bool()) {
                plan.alg = a.clone();
            }
            ok = false;
            what = format!("alg {a:?} auth={auth}");
        }
        3 => {
            // the other key agreement's name, the sender's share as before
            let a = if auth { ES } else { PU };
            plan.header.insert("alg".into(), json!(a));
            if r.bool() {
                plan.alg = a.into();
            }
            if auth && r.bool() {
                plan.header.remove("skid");
                plan.header.remove("apu");
            }
            if !auth && r.bool() {
                plan.header.insert("skid".into(), json!(sk.kid));
                plan.header.insert("apu".into(), json!(b64(sk.kid.as_bytes())));
            }
            ok = false;
            what = format!("alg {a} over auth={auth}, derived as {}", plan.alg);
        }
        4 => {
            // right names, key derived under another
            plan.alg = if r.bool() { near(r, &plan.alg.clone()) } else { (if auth { ES } else { PU }).to_string() };
            ok = false;
            what = format!("derived as {:?} auth={auth}", plan.alg);
        }
        5 => {
            let m = *r.pick(&["alg", "enc"]);
            let v = r.pick(&[json!(null), json!(1), json!(["A256GCM"]), json!({}), json!([enc]), json!([])]).clone();
            plan.header.insert(m.into(), v.clone());
            if r.chance(1, 4) {
                plan.header.remove(m);
            }
            ok = false;
            what = format!("{m} is {v}");
        }
        6 if !auth => {
            // key material of the sender's share although the name says there is none
            plan.sender = Some(sk.key.clone());
            ok = false;
            what = "sender's share under the anonymous name".into();
        }
        6 => {
            plan.sender = None;
            ok = false;
            what = "no sender's share under the authenticated name".into();
        }
        _ => {}
    }
    let text = plan.seal(pt.as_bytes()).text();
    let dr = Dr::new([&rc, &snd]);
    let got = unpack(&text, &dr, &Sr::party(&rc), &opts(r.bool(), r.bool()));
    obs.eval(&format!("{what}{crv:?}{nk}"));
    obs.count(if ok { "registered and consistent" } else { "to be refused" });
    let w = || json!({"what": what, "header": plan.header, "text": text, "got": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(|m| &m.1)))});
    match &got {
        Ok(Ok((m, meta))) => {
            if !obs.check(ok, "processed under an algorithm its name does not select", w) {
                return;
            }
            obs.check(gmsg::same(m, &msg), "another message", w);
            let e = c03::judge(&c03::Expect { auth: if auth { Some(sk.kid.clone()) } else { None }, anon: if auth { None } else { Some(enc.into()) }, to: Some(keys.iter().map(|k| k.0.clone()).collect()), ..Default::default() }, meta, &|_| None);
            obs.check(e.is_ok(), "reported as another algorithm", || json!({"why": e, "what": what, "text": text}));
        }
        Ok(Err(_)) => {
            obs.check(!ok, "refused", w);
        }
        Err(a) => obs.violation("abnormal", json!(a.to_string())),
    }
}

const SIGN: [(Crv, &str); 3] = [(Crv::Ed25519, "EdDSA"), (Crv::P256, "ES256"), (Crv::K256, "ES256K")];

fn signatures(all: Option<usize>, r: &mut Rng, obs: &mut Obs) {
    // the signer has a key of each kind
    let mut p = party(r, &[Crv::X25519]);
    let d = p.did.clone();
    p.auth = SIGN.iter().enumerate().map(|(i, c)| KeyEntry::gen(r, format!("{d}#sig{i}"), c.0)).collect();
    let (mut i, j) = (r.below(3), r.below(3));
    if let Some(n) = all {
        i = n % 3;
    }
    let signing = &p.auth[i].key;
    let named = &p.auth[if r.chance(3, 4) { i } else { j }];
    let how = r.below(4);
    let alg = match if all.is_some() { 4 } else { how } {
        4 => REGISTRY[all.unwrap() / 6 % REGISTRY.len()].to_string(),
        0 => near(r, SIGN[i].1),
        1 => SIGN[j].1.to_string(),
        _ => SIGN[i].1.to_string(),
    };
    let ok = alg == SIGN[i].1 && named.kid == p.auth[i].kid;
    let dr = Dr::new([&p]);
    let token = all.map(|n| n / 3 % 2 == 0).unwrap_or_else(|| r.bool());
    let mut msg = gmsg::message(r);
    (msg.attachments, msg.from, msg.from_prior) = (None, None, None);
    let alg_v = if r.chance(1, 30) { json!([alg]) } else { json!(alg) };
    let ok = ok && alg_v.is_string();
    let (text, got): (String, Result<Result<String, String>, vcommon::Abnormal>) = if token {
        let t = jwt(&json!({"typ": "JWT", "alg": alg_v, "kid": named.kid}), json!({"iss": d, "sub": "did:example:next"}).to_string().as_bytes(), signing);
        let g = crate::world::run(FromPrior::unpack(&t, &dr));
        (t, g.map(|x| x.map(|v| v.1).map_err(|e| format!("{e:?}"))))
    } else {
        let t = jws_with(gmsg::message_json(&msg).to_string().as_bytes(), &[(named.kid.clone(), signing.clone(), json!({"typ": "application/didcomm-signed+json", "alg": alg_v}))]).to_string();
        let g = unpack(&t, &dr, &Sr::none(), &UnpackOptions::default());
        let want = format!("Some({})", match i { 0 => "EdDSA", 1 => "ES256", _ => "ES256K" });
        if let Ok(Ok((_, m))) = &g {
            obs.check(format!("{:?}", m.sign_alg) == want, "reported as another algorithm", || json!({"reported": format!("{:?}", m.sign_alg), "used": want, "text": t}));
        }
        (t, g.map(|x| x.map(|v| v.1.sign_from.unwrap_or_default()).map_err(|e| format!("{e:?}"))))
    };
    obs.eval(&format!("{token}{alg}{}{}", SIGN[i].1, named.kid == p.auth[i].kid));
    obs.count(if ok { "signature: registered and consistent" } else { "signature: to be refused" });
    let w = || json!({"alg": alg_v, "signed with": SIGN[i].1, "kid names": format!("{:?}", named.key.crv), "token": token, "text": text, "got": format!("{got:?}")});
    match &got {
        Ok(Ok(k)) => {
            if obs.check(ok, "verified under an algorithm its name does not select", w) {
                obs.check(*k == named.kid, "another key", w);
            }
        }
        Ok(Err(_)) => {
            obs.check(!ok, "refused", w);
        }
        Err(a) => obs.violation("abnormal", json!(a.to_string())),
    }
}

/// What is written: the name asked for by options or key, and content the named algorithm opens.
fn written(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(*r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth, Mode::Auth]));
    let s = scn(r, &Knobs { mode, small: true, ..Default::default() });
    let p = match crate::c01::must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    obs.eval(&s.shape());
    let w = |x: Value| json!({"detail": x, "scenario": s.brief(), "packed": p.text});
    let l = match s.peel(&p.text, 0) {
        Ok(l) => l,
        Err(e) => return obs.violation("the named algorithms do not open it", w(json!(e))),
    };
    for o in l.hops.iter().map(|h| &h.0).chain(&l.inner) {
        let want = if o.alg == PU { ENCS[0] } else { anon_enc(&s.opts.enc_alg_anon) };
        obs.check(o.enc == want, "another content algorithm than asked", || w(json!({"asked": want, "used": o.enc})));
        obs.count(&format!("written {} {}", o.alg, o.enc));
    }
    let auth_layers = l.inner.iter().filter(|o| o.alg == PU).count();
    obs.check(auth_layers == (s.mode == Mode::Auth) as usize && l.hops.iter().all(|h| h.0.alg == ES), "another key agreement than asked", || w(json!(auth_layers)));
    if let Some((v, _)) = &l.signed {
        let want = s.parties[s.signer].key(&v.kid).map(|k| k.key.crv.sign_alg());
        obs.check(Some(v.alg.as_str()) == want, "another signature algorithm than the key's", || w(json!(v.alg)));
        obs.count(&format!("written {}", v.alg));
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Envelopes and signatures built by an independent implementation under every real algorithm while the header names the same, another registered, a misspelt or no algorithm,
         and the key derivation uses the same or another name: only the consistent registered ones may open, and must, reported under their name.
         What the library writes is opened under the names it wrote and compared with what was asked. Distinct = (written name, real algorithm, curve).",
    );
    run.assume("askar-crypto is replaced by a stand-in over OpenSSL.");
    let n = run.cfg.n(15_000, 600_000);
    run.cases("envelopes", n, |_, r, obs| jwes(None, r, obs));
    let n = REGISTRY.len() as u64 * 8;
    run.cases("other names, envelopes", n, |i, r, obs| jwes(Some(i as usize), r, obs));
    let n = REGISTRY.len() as u64 * 6;
    run.cases("other names, signatures", n, |i, r, obs| signatures(Some(i as usize), r, obs));
    let n = run.cfg.n(10_000, 400_000);
    run.cases("signatures", n, |_, r, obs| signatures(None, r, obs));
    let n = run.cfg.n(1500, 60_000);
    run.cases("written", n, |_, r, obs| written(r, obs));
    run.require("registered and consistent", 500);
    run.require("to be refused", 500);
    run.require("signature: to be refused", 500);
}
