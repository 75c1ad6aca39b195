//! C02: altering any part of a packed message is detected.
use crate::{c01::must_pack, dc::UnpackMetadata, gmsg, refc::*, refjose::*, scn::*, world::*};
use serde_json::{json, Value};
use vcommon::{Obs, Rng, Runner};

/// The trust claims of an unpack, in a form that does not depend on how an envelope is written down.
pub fn trust(m: &UnpackMetadata) -> Value {
    let mut k = m.encrypted_to_kids.clone();
    if let Some(k) = k.as_mut() {
        k.sort()
    }
    let signed = m.signed_message.as_ref().map(|s| {
        let v: Value = serde_json::from_str(s).unwrap_or_default();
        json!([v["payload"], v["signatures"][0]["header"]["kid"], v["signatures"].as_array().map(|a| a.len())])
    });
    json!({
        "encrypted": m.encrypted, "authenticated": m.authenticated, "non_repudiation": m.non_repudiation, "anonymous": m.anonymous_sender,
        "rewrapped": m.re_wrapped_in_forward, "from": m.encrypted_from_kid, "to": k, "signer": m.sign_from, "prior_kid": m.from_prior_issuer_kid,
        "auth": m.enc_alg_auth, "anon": m.enc_alg_anon, "sign": m.sign_alg, "signed": signed,
        "prior": m.from_prior.as_ref().map(|p| serde_json::to_value(p).unwrap()),
    })
}

fn flip(r: &mut Rng, s: &str) -> String {
    let mut b = unb64(s).unwrap_or_default();
    if b.is_empty() {
        return "AA".into();
    }
    match r.below(6) {
        0 => {
            b.pop();
        }
        1 => {
            let n = r.range(1, 3);
            b.extend(r.bytes(n));
        }
        2 => b.clear(),
        3 => {
            let i = r.below(b.len());
            b.remove(i);
        }
        _ => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
    }
    b64(&b)
}

fn str_at(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}

/// The signed payload as an object the attacker then changes.
fn payload_of(v: &Value) -> Value {
    let p: Value = unb64(&str_at(&v["payload"])).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
    if p.is_object() {
        p
    } else {
        json!({})
    }
}

fn edit_header(r: &mut Rng, s: &str, other_kid: &str, kids: &[String]) -> (String, String) {
    let mut h: Value = unb64(s).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
    if !h.is_object() {
        h = json!({});
    }
    let what = match r.below(13) {
        0 => {
            h["enc"] = json!(*r.pick(&ENCS));
            "enc"
        }
        1 => {
            h["alg"] = json!(*r.pick(&[ES, PU, "EdDSA", "ES256", "ES256K", "none", "A256KW", "dir"]));
            "alg"
        }
        2 => {
            h["skid"] = json!(other_kid);
            h["apu"] = json!(b64(other_kid.as_bytes()));
            "skid+apu"
        }
        3 => {
            h.as_object_mut().unwrap().remove("skid");
            "no skid"
        }
        4 => {
            let o = h.as_object_mut().unwrap();
            o.remove("skid");
            o.remove("apu");
            "no skid, no apu"
        }
        5 => {
            let c = if h["epk"]["crv"] == "P-256" { Crv::P256 } else { Crv::X25519 };
            h["epk"] = Key::gen(r, c).jwk(false);
            "epk"
        }
        6 => {
            h["apv"] = json!(b64(&apv_of(kids)));
            h["x"] = json!(1);
            "unknown member"
        }
        7 => {
            h["typ"] = json!("application/didcomm-plain+json");
            "typ"
        }
        8 => {
            h.as_object_mut().unwrap().remove("typ");
            "no typ"
        }
        9 => {
            h["apu"] = json!(b64(other_kid.as_bytes()));
            "apu"
        }
        10 => {
            h["apv"] = json!(b64(&r.bytes(32)));
            "apv"
        }
        11 => {
            h["kid"] = json!(other_kid);
            "kid"
        }
        _ => {
            // same members in another order or spacing
            let t = vcommon::gen::restyle(&h, r, false);
            return (b64(t.as_bytes()), "respelled".into());
        }
    };
    (b64(h.to_string().as_bytes()), what.into())
}

/// One alteration of an envelope; `q` is another envelope of the same kind.
fn alter(r: &mut Rng, p: &Value, q: &Value, other_kid: &str, evil: &KeyEntry) -> (String, String) {
    let mut v = p.clone();
    let jwe = v.get("ciphertext").is_some();
    let what: String;
    if jwe {
        let kids: Vec<String> = v["recipients"].as_array().unwrap().iter().map(|x| str_at(&x["header"]["kid"])).collect();
        let n = kids.len();
        match r.below(16) {
            0..=2 => {
                let f = *r.pick(&["iv", "ciphertext", "tag", "protected"]);
                v[f] = json!(flip(r, &str_at(&v[f])));
                what = format!("damage {f}");
            }
            3 => {
                let f = *r.pick(&["iv", "ciphertext", "tag", "protected", "recipients"]);
                v[f] = q[f].clone();
                what = format!("swap {f}");
            }
            4 => {
                let i = r.below(n);
                v["recipients"][i]["encrypted_key"] = json!(flip(r, &str_at(&v["recipients"][i]["encrypted_key"])));
                what = "damage encrypted_key".into();
            }
            5 => {
                let i = r.below(n);
                let j = r.below(q["recipients"].as_array().unwrap().len());
                v["recipients"][i]["encrypted_key"] = q["recipients"][j]["encrypted_key"].clone();
                what = "swap encrypted_key".into();
            }
            6 => {
                let i = r.below(n);
                v["recipients"].as_array_mut().unwrap().remove(i);
                what = "drop recipient".into();
            }
            7 => {
                let i = r.below(n);
                let x = v["recipients"][i].clone();
                v["recipients"].as_array_mut().unwrap().push(x);
                what = "repeat recipient".into();
            }
            8 => {
                let mut a = v["recipients"].as_array().unwrap().clone();
                r.shuffle(&mut a);
                v["recipients"] = json!(a);
                what = "reorder recipients".into();
            }
            9 => {
                let i = r.below(n);
                v["recipients"][i]["header"]["kid"] = json!(if r.bool() { other_kid.to_string() } else { format!("{}x", kids[i]) });
                what = "recipient kid".into();
            }
            10 => {
                let (i, j) = (r.below(n), r.below(n));
                let (a, b) = (v["recipients"][i]["encrypted_key"].clone(), v["recipients"][j]["encrypted_key"].clone());
                v["recipients"][i]["encrypted_key"] = b;
                v["recipients"][j]["encrypted_key"] = a;
                what = "exchange encrypted_keys".into();
            }
            11 => {
                let (h, w) = edit_header(r, &str_at(&v["protected"]), other_kid, &kids);
                v["protected"] = json!(h);
                what = format!("header: {w}");
            }
            12 => {
                // two coordinated parts of the other envelope
                for f in ["protected", "recipients"] {
                    v[f] = q[f].clone();
                }
                if r.bool() {
                    v["iv"] = q["iv"].clone();
                }
                what = "swap header and recipients".into();
            }
            13 => {
                for f in ["iv", "ciphertext", "tag"] {
                    v[f] = q[f].clone();
                }
                what = "swap content".into();
            }
            14 => {
                // bytes moved over the boundary of ciphertext and tag
                let mut c = unb64(&str_at(&v["ciphertext"])).unwrap_or_default();
                let mut t = unb64(&str_at(&v["tag"])).unwrap_or_default();
                if r.bool() && !c.is_empty() {
                    let x = c.pop().unwrap();
                    t.insert(0, x);
                } else if !t.is_empty() {
                    c.push(t.remove(0));
                }
                v["ciphertext"] = json!(b64(&c));
                v["tag"] = json!(b64(&t));
                what = "move bytes between ciphertext and tag".into();
            }
            _ => {
                let f = *r.pick(&["iv", "ciphertext", "tag", "protected", "recipients"]);
                v.as_object_mut().unwrap().remove(f);
                what = format!("drop {f}");
            }
        }
    } else {
        match r.below(16) {
            0..=2 => {
                let f = *r.pick(&["protected", "signature", "payload"]);
                if f == "payload" {
                    v["payload"] = json!(flip(r, &str_at(&v["payload"])));
                } else {
                    v["signatures"][0][f] = json!(flip(r, &str_at(&v["signatures"][0][f])));
                }
                what = format!("damage {f}");
            }
            3 => {
                v["payload"] = q["payload"].clone();
                what = "swap payload".into();
            }
            4 => {
                v["signatures"] = q["signatures"].clone();
                what = "swap signatures".into();
            }
            5 => {
                v["signatures"][0]["header"]["kid"] = json!(other_kid);
                what = "signer kid".into();
            }
            6 => {
                v["signatures"][0]["header"]["kid"] = json!(evil.kid);
                what = "signer kid of another party".into();
            }
            7 => {
                let (h, w) = edit_header(r, &str_at(&v["signatures"][0]["protected"]), other_kid, &[]);
                v["signatures"][0]["protected"] = json!(h);
                what = format!("header: {w}");
            }
            8 => {
                v["signatures"] = json!([]);
                what = "no signature".into();
            }
            9 => {
                // the attacker adds a signature of its own over its own payload
                let mut pl: Value = payload_of(&v);
                pl["body"] = json!({"evil": true});
                let w = jws(pl.to_string().as_bytes(), &evil.kid, &evil.key);
                let mut s = v["signatures"].as_array().unwrap().clone();
                let i = r.below(2);
                s.insert(i, w["signatures"][0].clone());
                v = json!({"payload": w["payload"], "signatures": s});
                what = "attacker's payload with both signatures".into();
            }
            10 => {
                let mut pl: Value = payload_of(&v);
                pl["body"] = json!({"evil": true});
                v["payload"] = json!(b64(pl.to_string().as_bytes()));
                what = "payload replaced".into();
            }
            11 => {
                // attacker signs, claims the victim's key
                let mut pl: Value = payload_of(&v);
                pl["id"] = json!("evil");
                let kid = str_at(&v["signatures"][0]["header"]["kid"]);
                v = jws(pl.to_string().as_bytes(), &kid, &evil.key);
                what = "attacker's signature under the signer's kid".into();
            }
            12 => {
                let mut b = unb64(&str_at(&v["signatures"][0]["signature"])).unwrap_or_default();
                let n = b.len().min(32);
                b.rotate_left(n);
                v["signatures"][0]["signature"] = json!(b64(&b));
                what = "signature halves exchanged".into();
            }
            13 => {
                v["signatures"][0]["signature"] = json!(b64(&vec![0u8; 64]));
                what = "zero signature".into();
            }
            14 => {
                let f = *r.pick(&["protected", "signature", "header"]);
                if let Some(o) = v["signatures"][0].as_object_mut() {
                    o.remove(f);
                }
                what = format!("drop {f}");
            }
            _ => {
                let x = v["signatures"][0].clone();
                v["signatures"].as_array_mut().unwrap().push(x);
                what = "repeated signature".into();
            }
        }
    }
    (v.to_string(), what)
}

pub fn case(r: &mut Rng, obs: &mut Obs, per: usize) {
    let mode = *r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth, Mode::Auth]);
    let s = scn(r, &Knobs { mode: Some(mode), routed: Some(false), small: true, ..Default::default() });
    let p = match must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    // another message between the same parties
    let mut s2 = s.clone();
    s2.msg.id = format!("{}-other", s.msg.id);
    s2.msg.body = json!({"other": gen_word(r)});
    let q = match must_pack(&s2, obs) {
        Some(p) => p,
        None => return,
    };
    let (dr, sr) = (s.dr(), Sr::party(&s.parties[1]));
    let o = opts(r.bool(), r.bool());
    let orig = match unpack(&p.text, &dr, &sr, &o) {
        Ok(Ok(x)) => x,
        _ => {
            obs.violation("not-unpacked", s.brief());
            return;
        }
    };
    let second = unpack(&q.text, &dr, &sr, &o).ok().and_then(|x| x.ok());
    let (pv, qv): (Value, Value) = (serde_json::from_str(&p.text).unwrap(), serde_json::from_str(&q.text).unwrap());
    let want = trust(&orig.1);
    for _ in 0..per {
        let ok = {
            let ps = &s.parties[r.below(3)];
            let all: Vec<&KeyEntry> = ps.all().collect();
            (*r.pick(&all)).kid.clone()
        };
        let evil = { let a = &s.parties[4].auth; r.pick(a).clone() };
        let (t, what) = if r.chance(1, 12) {
            // one character of the text
            let mut c: Vec<char> = p.text.chars().collect();
            let i = r.below(c.len());
            c[i] = *r.pick(&['A', 'b', '0', '-', '_', '"', '}', ',', ' ']);
            (c.into_iter().collect(), "one character".to_string())
        } else if r.chance(1, 4) {
            let (a, w1) = alter(r, &pv, &qv, &ok, &evil);
            match serde_json::from_str::<Value>(&a) {
                Ok(av) if complete(&av) => {
                    let (b, w2) = alter(r, &av, &qv, &ok, &evil);
                    (b, format!("{w1}; {w2}"))
                }
                _ => (a, w1),
            }
        } else {
            alter(r, &pv, &qv, &ok, &evil)
        };
        if t == p.text {
            continue;
        }
        obs.eval(&format!("{}{}{}{:?}", s.shape(), what, per, o));
        obs.count(&format!("altered: {}", what.split(';').next().unwrap()));
        match unpack(&t, &dr, &sr, &o) {
            Ok(Err(_)) => obs.count("refused"),
            Ok(Ok((m, meta))) => {
                let tr = trust(&meta);
                let is_orig = gmsg::same(&m, &orig.0) && tr == want;
                // putting together the whole other envelope is a delivery of that one
                let is_other = second.as_ref().map(|x| gmsg::same(&m, &x.0) && tr == trust(&x.1)).unwrap_or(false)
                    && serde_json::from_str::<Value>(&t).map(|v| whole(&v, &qv)).unwrap_or(false);
                if is_orig {
                    obs.count("accepted as the original");
                } else if verify_jws(&t, &|k| if k == evil.kid { Some(evil.key.clone()) } else { None }).is_ok() && meta.sign_from.as_deref() == Some(&evil.kid) {
                    // two alterations together made a message of the attacker's own
                    obs.count("a sound message of another party");
                } else if is_other {
                    obs.count("the other message as a whole");
                } else {
                    obs.violation("altered-message-accepted", json!({"alteration": what, "original": p.text, "altered": t, "got": gmsg::message_json(&m), "trust": tr, "original trust": want}));
                }
            }
            Err(a) => obs.violation("abnormal", json!({"what": a.to_string(), "alteration": what, "altered": t})),
        }
    }
    obs.sample(|| json!({"scenario": s.shape(), "alterations": per}));
}

fn gen_word(r: &mut Rng) -> String {
    vcommon::gen::word(r, 8)
}

fn complete(v: &Value) -> bool {
    let n = |x: &Value| x.as_array().map(|a| !a.is_empty()).unwrap_or(false);
    (["iv", "ciphertext", "tag", "protected"].iter().all(|f| v[*f].is_string()) && n(&v["recipients"]))
        || (v["payload"].is_string() && n(&v["signatures"]) && ["protected", "signature"].iter().all(|f| v["signatures"][0][*f].is_string()) && unb64(v["payload"].as_str().unwrap()).and_then(|b| serde_json::from_slice::<Value>(&b).ok()).map(|x| x.is_object()).unwrap_or(false))
}

fn whole(v: &Value, q: &Value) -> bool {
    ["iv", "ciphertext", "tag", "protected", "payload"].iter().all(|f| v[*f] == q[*f])
}

pub fn run(run: &mut Runner) {
    run.rule(
        "A packed message (signed, anonymous, authenticated, signed and encrypted) is altered: bits of every field, fields and groups of
         fields exchanged with another message of the same parties, recipients dropped, repeated, reordered, renamed, header members
         changed, signatures and signers replaced, single characters; every altered text is unpacked by the recipient. It must be refused
         or give exactly the original message with the original trust information. Distinct by scenario shape and alteration.",
    );
    run.assume("askar-crypto is replaced by a stand-in over OpenSSL (the real crate is not available offline).");
    let n = run.cfg.n(1500, 60_000);
    run.cases("alter", n, |_, r, obs| case(r, obs, 40));
    // every bit of small messages
    let n = run.cfg.n(12, 300);
    run.cases("every-bit", n, |c, r, obs| {
        let mode = [Mode::Signed, Mode::Anon, Mode::Auth][(c % 3) as usize];
        let mut s = scn(r, &Knobs { mode: Some(mode), routed: Some(false), small: true, from_prior: Some(false), ..Default::default() });
        s.msg.body = json!({});
        s.msg.extra_headers.clear();
        let p = match must_pack(&s, obs) {
            Some(p) => p,
            None => return,
        };
        let (dr, sr) = (s.dr(), Sr::party(&s.parties[1]));
        let orig = match unpack(&p.text, &dr, &sr, &opts(true, true)) {
            Ok(Ok(x)) => x,
            _ => return,
        };
        let pv: Value = serde_json::from_str(&p.text).unwrap();
        let paths: &[&str] = if mode == Mode::Signed { &["/payload", "/signatures/0/protected", "/signatures/0/signature"] } else { &["/protected", "/iv", "/ciphertext", "/tag", "/recipients/0/encrypted_key"] };
        for path in paths {
            let b = unb64(pv.pointer(path).unwrap().as_str().unwrap()).unwrap();
            let bits = b.len() * 8;
            let step = (bits / 200).max(1);
            let mut i = r.below(step);
            while i < bits {
                let mut x = b.clone();
                x[i / 8] ^= 1 << (i % 8);
                i += step;
                let mut v = pv.clone();
                *v.pointer_mut(path).unwrap() = json!(b64(&x));
                obs.eval(&format!("{mode:?}{path}{i}"));
                obs.count(&format!("bit of {path}"));
                match unpack(&v.to_string(), &dr, &sr, &opts(true, true)) {
                    Ok(Err(_)) => obs.count("refused"),
                    Ok(Ok((m, meta))) => {
                        if !(gmsg::same(&m, &orig.0) && trust(&meta) == trust(&orig.1)) {
                            obs.violation("altered-message-accepted", json!({"path": path, "bit": i, "altered": v, "scenario": s.brief()}));
                        }
                    }
                    Err(a) => obs.violation("abnormal", json!({"what": a.to_string(), "altered": v})),
                }
            }
        }
    });
    run.require("refused", 1000);
}
