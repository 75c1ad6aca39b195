//! C01: what is packed comes back, for every recipient key, mode, route and option.
use crate::{dc::error::ErrorKind, gmsg, refc::*, scn::*, world::*};
use serde_json::json;
use vcommon::{Obs, Rng, Runner};

/// Packs; a refusal of a valid scenario is a violation.
pub fn must_pack(s: &Scn, obs: &mut Obs) -> Option<Packed> {
    match s.pack() {
        Ok(Ok(p)) => Some(p),
        Ok(Err(e)) => {
            obs.violation("valid-message-not-packed", json!({"error": format!("{e:?}"), "scenario": s.brief()}));
            None
        }
        Err(a) => {
            obs.violation("pack-abnormal", json!({"error": a.to_string(), "scenario": s.brief()}));
            None
        }
    }
}

pub fn case(s: &Scn, r: &mut Rng, obs: &mut Obs) {
    let p = match must_pack(s, obs) {
        Some(p) => p,
        None => return,
    };
    let inner = match s.deliver(&p.text) {
        Ok(m) => m,
        Err(e) => {
            obs.violation("mediators-do-not-deliver", json!({"error": e, "scenario": s.brief(), "packed": p.text}));
            return;
        }
    };
    obs.countn("mediator hops passed", s.route.len() as u64);
    let dr = s.dr();
    let rc = &s.parties[1];
    let mut stores: Vec<(String, Sr)> = vec![];
    match &p.to_kids {
        Some(ks) => {
            for k in ks {
                match rc.key(k) {
                    Some(e) => stores.push((format!("only {k}"), Sr::keys([e]))),
                    None => {
                        obs.violation("addressed-key-is-not-the-recipients", json!({"kid": k, "scenario": s.brief()}));
                        return;
                    }
                }
            }
            stores.push(("all".into(), Sr::party(rc).reversed(r.bool())));
        }
        None => stores.push(("none".into(), Sr::none())),
    }
    for (name, sr) in stores {
        let o = opts(r.bool(), r.bool());
        obs.eval(&format!("{}{}", s.shape(), o.expect_decrypt_by_all_keys));
        obs.count(&format!("unpacked {:?}", s.mode));
        match unpack(&inner, &dr, &sr, &o) {
            Ok(Ok((m, _))) => {
                if !gmsg::same(&m, &s.msg) || m != s.msg {
                    obs.violation("message-changed", json!({"got": gmsg::message_json(&m), "scenario": s.brief(), "held": name}));
                }
            }
            x => obs.violation("not-unpacked", json!({"result": format!("{:?}", x.map(|y| y.err())), "held": name, "options": format!("{o:?}"), "scenario": s.brief(), "packed": inner})),
        }
    }
    if s.mode != Mode::Plain {
        obs.sample(|| json!({"scenario": s.shape(), "packed": vcommon::cut(&p.text, 300)}));
    }
}

/// Messages whose extra headers are what an envelope consists of.
fn lookalike(i: u64, r: &mut Rng, obs: &mut Obs) {
    let mode = [Mode::Plain, Mode::Signed, Mode::Anon, Mode::Auth][i as usize % 4];
    let like_jws = i / 4 % 2 == 0;
    let mut s = scn(r, &Knobs { mode: Some(mode), small: true, routed: Some(false), ..Default::default() });
    let h = if like_jws {
        json!({"payload": b64(b"{}"), "signatures": if r.bool() { json!([]) } else { json!([{"header": {"kid": "did:example:x#1"}, "protected": b64(b"{}"), "signature": b64(&r.bytes(64))}]) }})
    } else {
        let alg = if mode == Mode::Plain && r.bool() { "ECDH-ES+A256KW" } else { "ECDH-1PU+A256KW" };
        let p = json!({"typ": "application/didcomm-encrypted+json", "alg": alg, "enc": "A256CBC-HS512", "apv": "", "epk": {"kty": "OKP", "crv": "X25519", "x": b64(&r.bytes(32))}});
        json!({"protected": b64(p.to_string().as_bytes()), "recipients": [], "iv": "", "ciphertext": "", "tag": ""})
    };
    for (k, v) in h.as_object().unwrap() {
        s.msg.extra_headers.insert(k.clone(), v.clone());
    }
    let signed_inside = mode != Mode::Plain && s.sign_by.is_some();
    // these are read as the envelope they resemble (see known-findings.jsonl)
    let known = !signed_inside && mode != Mode::Signed && (like_jws || mode != Mode::Auth);
    let p = match must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    obs.eval(&format!("like{like_jws}{mode:?}{signed_inside}"));
    obs.count("messages that look like envelopes");
    let w = |g: String| json!({"got": g, "mode": format!("{mode:?}"), "headers": h, "packed": p.text});
    match unpack(&p.text, &s.dr(), &Sr::party(&s.parties[1]), &opts(false, false)) {
        Ok(Ok((m, _))) => {
            obs.check(m == s.msg, "message-changed", || w(gmsg::message_json(&m).to_string()));
        }
        Ok(Err(e)) if known && e.kind() == ErrorKind::Malformed => obs.violation(format!("lookalike of a {} packed {}", if like_jws { "JWS" } else { "JWE" }, format!("{mode:?}").to_lowercase()), w(format!("{e:?}"))),
        x => obs.violation("not-unpacked", w(format!("{:?}", x.map(|y| y.err())))),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "A random message (all members, attachment kinds, extra headers, from_prior) is packed as plaintext, signed, anonymously or
         authenticated-encrypted (with and without sender protection, signing, mediators); it is passed through each mediator in turn
         and unpacked with every single addressed key and with all keys; the message must come back equal field by field. One judged
         execution per unpack; distinct by mode, addressing, options, key curves, route length and message structure.",
    );
    run.assume("askar-crypto is replaced by a stand-in over OpenSSL (the real crate is not available offline).");
    let n = run.cfg.n(6000, 250_000);
    run.cases("roundtrip", n, |_, r, obs| {
        let s = scn(r, &Knobs { dual: true, to_self: 12, ..Default::default() });
        case(&s, r, obs)
    });
    let n = run.cfg.n(1500, 60_000);
    run.cases("routed", n, |_, r, obs| {
        let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
        let s = scn(r, &Knobs { mode, routed: Some(true), dual: true, to_self: 12, ..Default::default() });
        case(&s, r, obs)
    });
    run.cases("lookalike", 80, lookalike);
    let n = run.cfg.n(24, 400);
    run.cases("large", n, |_, r, obs| {
        let mode = Some(*r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth]));
        let mut s = scn(r, &Knobs { mode, ..Default::default() });
        let n = if r.chance(1, 4) { r.range(1 << 20, 9 << 19) } else { r.range(20_000, 600_000) };
        let t: String = (0..n).map(|i| char::from(b'a' + ((i * 7) % 26) as u8)).collect();
        s.msg.body = json!({"big": t, "n": n});
        case(&s, r, obs);
        // many recipients
        let mode = Some(*r.pick(&[Mode::Anon, Mode::Auth]));
        let mut s = scn(r, &Knobs { mode, routed: Some(false), ..Default::default() });
        let d = s.parties[1].did.clone();
        let c = *r.pick(&[Crv::X25519, Crv::P256]);
        let k = r.range(20, 60);
        s.parties[1].ka = (0..k).map(|i| KeyEntry::gen(r, format!("{d}#n{i}"), c)).collect();
        s.to = d;
        if s.mode == Mode::Auth {
            let e = KeyEntry::gen(r, format!("{}#snd", s.parties[0].did), c);
            s.from = Some(if r.bool() { e.kid.clone() } else { s.parties[0].did.clone() });
            s.held = vec![e.kid.clone()];
            s.parties[0].ka.push(e);
        }
        case(&s, r, obs);
    });
    run.require("unpacked Auth", 50);
    run.require("unpacked Anon", 50);
    run.require("unpacked Signed", 50);
    run.require("mediator hops passed", 50);
}
