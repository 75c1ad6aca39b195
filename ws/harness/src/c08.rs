//! C08: the wire format, judged by an independent implementation in both directions.
use crate::{c01::must_pack, c03, dc, gmsg, refc::*, refjose::*, scn::*, world::*};
use serde_json::{json, Value};
use vcommon::{gen, Obs, Rng, Runner};

fn out(r: &mut Rng, obs: &mut Obs) {
    let s = scn(r, &Knobs { dual: true, to_self: 12, ..Default::default() });
    let p = match must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    let w = |x: Value| json!({"detail": x, "scenario": s.brief(), "packed": p.text});
    obs.eval(&s.shape());
    let pick = r.below(8);
    let x = match s.peel(&p.text, pick) {
        Ok(x) => x,
        Err(e) => return obs.violation(format!("not conforming: {}", kind(&e)), w(json!(e))),
    };
    obs.count(&format!("{:?} conforms", s.mode));
    let an = anon_enc(&s.opts.enc_alg_anon);
    let want: Vec<(&str, &str)> = match s.mode {
        Mode::Anon => vec![(ES, an)],
        Mode::Auth if s.opts.protect_sender => vec![(ES, an), (PU, "A256CBC-HS512")],
        Mode::Auth => vec![(PU, "A256CBC-HS512")],
        _ => vec![],
    };
    let got: Vec<(&str, &str)> = x.inner.iter().map(|o| (o.alg.as_str(), o.enc.as_str())).collect();
    obs.check(got == want, "layers and algorithms", || w(json!({"got": got, "asked": want})));
    obs.check(x.hops.iter().all(|o| o.0.alg == ES && o.0.enc == an), "forward layer algorithm", || w(json!(x.hops.iter().map(|o| &o.0.header).collect::<Vec<_>>())));
    obs.check(x.signed.is_some() == s.sign_by.is_some(), "signature layer", || w(json!(x.signed.is_some())));
    if let (Some(k), Some((v, _))) = (&s.sign_by, &x.signed) {
        let ok = if k.contains('#') { &v.kid == k } else { v.kid.starts_with(&format!("{k}#")) };
        obs.check(ok, "signer key id", || w(json!(v.kid)));
    }
    if let (Some(f), Some(o)) = (&s.from, x.inner.iter().find(|o| o.alg == PU)) {
        let k = o.header["skid"].as_str().unwrap_or("");
        let ok = if f.contains('#') { k == f } else { k.starts_with(&format!("{f}#")) };
        obs.check(ok, "sender key id", || w(json!(k)));
    }
    obs.check(x.plaintext == gmsg::message_json(&s.msg), "plaintext differs from the message", || w(json!({"plaintext": x.plaintext})));
    obs.sample(|| json!({"scenario": s.shape(), "layers": got.len() + x.hops.len()}));
}

fn kind(e: &str) -> String {
    e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}

/// What another implementation may send: same meaning, other spelling.
fn foreign(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(*r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth, Mode::Auth]));
    let s = scn(r, &Knobs { mode, routed: Some(false), dual: true, to_self: 12, ..Default::default() });
    let rcp = &s.parties[1];
    let crv = s.target_sets().first().map(|x| x.0).unwrap_or(Crv::X25519);
    let recips: Vec<(String, Key)> = {
        let mut v: Vec<_> = rcp.ka.iter().filter(|k| k.key.crv == crv).map(|k| (k.kid.clone(), k.key.public())).collect();
        if v.is_empty() && s.mode != Mode::Signed {
            return;
        }
        r.shuffle(&mut v);
        v
    };
    let mut e = c03::Expect { prior: s.from_prior_claims.clone(), ..Default::default() };
    let plain = gmsg::message_json(&s.msg);
    e.payload = Some(plain.clone());
    let mut t = gen::restyle(&plain, r, true);
    if r.chance(1, 4) {
        let mut p = plain.clone();
        // the media type may be left out
        p.as_object_mut().unwrap().remove("typ");
        t = p.to_string();
        e.payload = Some(p);
    }
    if s.sign_by.is_some() {
        let p = &s.parties[s.signer];
        let k = r.pick(&p.auth).clone();
        let mut h = json!({"typ": "application/didcomm-signed+json", "alg": k.key.crv.sign_alg()});
        if r.chance(1, 4) {
            h["x-extra"] = gen::json(r, 1);
        }
        let v = jws_with(t.as_bytes(), &[(k.kid.clone(), k.key.clone(), h)]);
        t = gen::restyle(&v, r, false);
        e.signer = Some((k.kid, k.key.crv));
        e.copy = Some(v.clone());
    }
    let mut wrap = |r: &mut Rng, enc: &str, from: Option<&KeyEntry>, t: &str| {
        let mut p = Plan::new(r, enc, &recips, from.map(|k| (k.kid.as_str(), &k.key)));
        if r.chance(1, 4) {
            p.header.insert("x-extra".into(), gen::json(r, 1));
        }
        if r.chance(1, 4) {
            // other members of the ephemeral key
            p.header["epk"]["x-y"] = json!("z");
        }
        let h = gen::restyle(&Value::Object(p.header.clone()), r, false);
        let mut v = p.seal_with(&h, t.as_bytes()).json();
        if r.chance(1, 4) {
            v["unprotected"] = json!({"a": [1]});
        }
        gen::restyle(&v, r, false)
    };
    let kids: Vec<String> = recips.iter().map(|x| x.0.clone()).collect();
    let mut layers = String::new();
    if s.mode == Mode::Auth {
        let f = s.parties[0].ka.iter().find(|k| k.key.crv == crv);
        if let Some(f) = f {
            t = wrap(r, "A256CBC-HS512", Some(f), &t);
            e.auth = Some(f.kid.clone());
            e.to = Some(kids.clone());
            layers += "auth";
        }
    }
    if s.mode == Mode::Anon || (s.mode == Mode::Auth && (s.opts.protect_sender || e.auth.is_none())) {
        let enc = *r.pick(&ENCS);
        t = wrap(r, enc, None, &t);
        e.anon = Some(enc.into());
        e.to = Some(kids);
        layers += enc;
    }
    obs.eval(&format!("{layers}{}", s.shape()));
    obs.count(&format!("foreign {layers}{}", if e.signer.is_some() { " signed" } else { "" }));
    let sr = Sr::party(rcp).reversed(r.bool());
    match unpack(&t, &s.dr(), &sr, &opts(r.bool(), r.bool())) {
        Ok(Ok((m, meta))) => {
            obs.check(gmsg::same(&m, &s.msg), "foreign message changed", || json!({"sent": plain, "got": gmsg::message_json(&m), "message": t}));
            if let Err(x) = c03::judge(&e, &meta, &|k| s.public(k)) {
                // a signed copy is returned as received; its exact text is not part of this
                obs.violation(format!("foreign message's trust information {}", x.split(':').next().unwrap()), json!({"what": x, "metadata": format!("{meta:?}"), "message": t}));
            }
        }
        x => obs.violation("foreign message refused", json!({"result": format!("{x:?}"), "message": t, "scenario": s.brief()})),
    }
}

/// The repository's and the specification's examples, judged by the independent implementation and the library.
fn examples(obs: &mut Obs) {
    use dc::test_vectors as tv;
    let dr = Dr::of([tv::ALICE_DID_DOC.clone(), tv::BOB_DID_DOC.clone(), tv::CHARLIE_DID_DOC.clone()]);
    let sr = Sr::of(tv::BOB_SECRETS.clone());
    let text = |v: &Value| v.to_string();
    let simple: Value = serde_json::from_str(tv::PLAINTEXT_MSG_SIMPLE).unwrap();
    let list: Vec<(&str, &str, Option<&str>, Option<&str>, Option<&str>)> = vec![
        // name, text, sender key, signer key, anonymous enc
        ("signed 1", tv::SIGNED_MSG_ALICE_KEY_1, None, Some("did:example:alice#key-1"), None),
        ("signed 2", tv::SIGNED_MSG_ALICE_KEY_2, None, Some("did:example:alice#key-2"), None),
        ("signed 3", tv::SIGNED_MSG_ALICE_KEY_3, None, Some("did:example:alice#key-3"), None),
        ("anon xc20p 1", tv::ENCRYPTED_MSG_ANON_XC20P_1, None, None, Some("XC20P")),
        ("anon xc20p 2", tv::ENCRYPTED_MSG_ANON_XC20P_2, None, None, Some("XC20P")),
        ("auth x25519", tv::ENCRYPTED_MSG_AUTH_X25519, Some("did:example:alice#key-x25519-1"), None, None),
        ("auth p256, signed", tv::ENCRYPTED_MSG_AUTH_P256, Some("did:example:alice#key-p256-1"), Some("did:example:alice#key-1"), None),
        ("its signed part", tv::ENCRYPTED_MSG_AUTH_P256_SIGNED, None, Some("did:example:alice#key-1"), None),
    ];
    for (name, t, auth, sign, anon) in list {
        match unpack(t, &dr, &sr, &opts(false, true)) {
            Ok(Ok((m, meta))) => {
                obs.eval(name);
                obs.count("examples judged");
                let ok = gmsg::message_json(&m) == simple && meta.encrypted_from_kid.as_deref() == auth && meta.sign_from.as_deref() == sign && meta.enc_alg_anon.as_ref().map(anon_enc) == anon && meta.encrypted == (auth.is_some() || anon.is_some()) && meta.authenticated == (auth.is_some() || sign.is_some()) && meta.non_repudiation == sign.is_some();
                obs.check(ok, &format!("example misread: {name}"), || json!({"message": text(&gmsg::message_json(&m)), "metadata": format!("{meta:?}")}));
            }
            x => obs.violation(format!("example refused: {name}"), json!(format!("{x:?}"))),
        }
    }
}

/// A JSON string with one character written as an escape.
fn escaped(r: &mut Rng, s: &str) -> String {
    let n = r.below(s.chars().count().max(1));
    let mut t = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        if i != n {
            t += serde_json::to_string(&c.to_string()).unwrap().trim_matches('"');
        } else if c == '/' && r.bool() {
            t += "\\/";
        } else {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                t += &if r.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
            }
        }
    }
    t + "\""
}

/// `v` as text with the string at `path` (or the member's name, if `name`) holding an escape.
fn with_escape(r: &mut Rng, v: &Value, path: &str, name: bool) -> Option<String> {
    const MARK: &str = "@@here@@";
    let mut v = v.clone();
    let old = if name {
        let (up, last) = path.rsplit_once('/').unwrap();
        let o = v.pointer_mut(up)?.as_object_mut()?;
        let x = o.remove(last)?;
        o.insert(MARK.into(), x);
        last.to_string()
    } else {
        let x = v.pointer_mut(path)?;
        let s = x.as_str()?.to_string();
        *x = json!(MARK);
        s
    };
    if old.is_empty() {
        return None;
    }
    let e = escaped(r, &old);
    Some(v.to_string().replace(&format!("\"{MARK}\""), &e))
}

const JWE_STRINGS: [&str; 6] = ["/protected", "/iv", "/ciphertext", "/tag", "/recipients/0/encrypted_key", "/recipients/0/header/kid"];
const JWE_HEADER_STRINGS: [&str; 9] = ["/typ", "/alg", "/enc", "/apv", "/apu", "/skid", "/epk/kty", "/epk/crv", "/epk/x"];
const JWS_STRINGS: [&str; 4] = ["/payload", "/signatures/0/protected", "/signatures/0/signature", "/signatures/0/header/kid"];
const JWS_HEADER_STRINGS: [&str; 2] = ["/typ", "/alg"];
const JWT_HEADER_STRINGS: [&str; 3] = ["/typ", "/alg", "/kid"];

/// JSON writes a character in several ways; all mean the same.
fn escapes(i: u64, r: &mut Rng, obs: &mut Obs) {
    let mut list: Vec<(&str, &str)> = vec![];
    list.extend(JWE_STRINGS.iter().map(|p| ("JWE", *p)));
    list.extend(JWE_HEADER_STRINGS.iter().map(|p| ("JWE header", *p)));
    list.extend(JWS_STRINGS.iter().map(|p| ("JWS", *p)));
    list.extend(JWS_HEADER_STRINGS.iter().map(|p| ("JWS header", *p)));
    list.extend(JWT_HEADER_STRINGS.iter().map(|p| ("JWT header", *p)));
    let (form, path) = list[i as usize / 2 % list.len()];
    let name = i % 2 == 1;
    let crv = *r.pick(&[Crv::X25519, Crv::P256]);
    let (a, b) = (party(r, &[crv]), party(r, &[crv]));
    if a.did == b.did {
        return;
    }
    let mut m = gmsg::message(r);
    (m.attachments, m.from, m.from_prior) = (None, None, None);
    let k = r.pick(&a.auth).clone();
    let auth = r.bool() || path == "/apu" || path == "/skid";
    let text = match form {
        "JWT header" => {
            let h = json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid});
            let h = with_escape(r, &h, path, name);
            let h = match h {
                Some(h) => h,
                None => return,
            };
            let i = format!("{}.{}", b64(h.as_bytes()), b64(json!({"iss": a.did, "sub": b.did}).to_string().as_bytes()));
            let j = format!("{i}.{}", b64(&k.key.sign(i.as_bytes())));
            m.from = Some(b.did.clone());
            m.from_prior = Some(j);
            Some(gmsg::message_json(&m).to_string())
        }
        "JWS" => with_escape(r, &jws(gmsg::message_json(&m).to_string().as_bytes(), &k.kid, &k.key), path, name),
        "JWS header" => {
            let h = json!({"typ": "application/didcomm-signed+json", "alg": k.key.crv.sign_alg()});
            with_escape(r, &h, path, name).map(|h| {
                let (h, p) = (b64(h.as_bytes()), b64(gmsg::message_json(&m).to_string().as_bytes()));
                let s = b64(&k.key.sign(format!("{h}.{p}").as_bytes()));
                json!({"payload": p, "signatures": [{"protected": h, "signature": s, "header": {"kid": k.kid}}]}).to_string()
            })
        }
        _ => {
            let enc = if auth { ENCS[0] } else { *r.pick(&ENCS) };
            let to = [(b.ka[0].kid.clone(), b.ka[0].key.public())];
            let p = Plan::new(r, enc, &to, if auth { Some((a.ka[0].kid.as_str(), &a.ka[0].key)) } else { None });
            let pt = gmsg::message_json(&m).to_string();
            if form == "JWE" {
                with_escape(r, &p.seal(pt.as_bytes()).json(), path, name)
            } else {
                with_escape(r, &Value::Object(p.header.clone()), path, name).map(|h| p.seal_with(&h, pt.as_bytes()).json().to_string())
            }
        }
    };
    let text = match text {
        Some(t) => t,
        None => return,
    };
    obs.eval(&format!("{form}{path}{name}{auth}{crv:?}"));
    obs.count("escaped spellings");
    let got = unpack(&text, &Dr::new([&a, &b]), &Sr::party(&b), &opts(r.bool(), r.bool()));
    match got {
        Ok(Ok((g, _))) => {
            obs.check(gmsg::same(&g, &m), "foreign message changed", || json!({"sent": gmsg::message_json(&m), "got": gmsg::message_json(&g), "message": text}));
        }
        Ok(Err(e)) if e.kind() == dc::error::ErrorKind::Malformed => obs.violation(format!("refused with an escape in {}{form} {path}", if name { "the name of " } else { "" }), json!({"error": format!("{e:?}"), "message": text})),
        x => obs.violation("foreign message refused", json!({"result": format!("{x:?}"), "message": text, "escape in": format!("{form} {path}")})),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Everything the library packs (all modes, routes, algorithms, curves) is opened by an independent strict implementation of JWE,
         JWS, JWT and JWM: exact members, headers, encodings, key derivation, signing input and plaintext. Everything that implementation
         builds, with other member order, white space, escapes and unknown members, is unpacked by the library to the same message and
         trust information; so are the specification's examples. Distinct by layers and scenario shape.",
    );
    run.assume("askar-crypto is replaced by a stand-in over OpenSSL; the independent implementation uses OpenSSL too, by other code.");
    let n = run.cfg.n(4000, 150_000);
    run.cases("out", n, |_, r, obs| out(r, obs));
    let n = run.cfg.n(6000, 200_000);
    run.cases("in", n, |_, r, obs| foreign(r, obs));
    let n = run.cfg.n(960, 20_000);
    run.cases("escapes", n, escapes);
    run.single("examples", |_, obs| examples(obs));
    run.require("examples judged", 8);
    run.require("Auth conforms", 200);
}
