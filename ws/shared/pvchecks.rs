//! Checks on the envelope parser and the plaintext reader, reached as private items.
use crate::{
    gmsg,
    jwe::{
        self,
        envelope::{PerRecipientHeader, ProtectedHeader, Recipient, JWE},
        Algorithm, EncAlgorithm,
    },
    Message,
};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use vcommon::{gen, guard, Obs, Rng, Runner};

fn b64(b: &[u8]) -> String {
    base64::encode_config(b, base64::URL_SAFE_NO_PAD)
}

fn kids(r: &mut Rng) -> Vec<String> {
    let did = format!("did:{}:{}", r.pick(&["example", "web", "key", "x"]), gen::word(r, 5));
    let n = match r.below(6) {
        0 | 1 => 1,
        2 | 3 => r.range(2, 4),
        4 => r.range(5, 12),
        _ if r.chance(1, 40) => r.range(41, 300),
        _ => r.range(2, 40),
    };
    let mut v: Vec<String> = (0..n)
        .map(|_| match r.below(if n > 40 { 12 } else { 8 }) {
            5 => format!("{did}#{}", r.pick(&["", "é", "漢", "K", "k", "\u{212a}", "a", "aa", "a.", ".a", "-", "~", "0", "00", "key-1", "KEY-1"])),
            6 => format!("{}#{}", did.to_uppercase(), r.below(9)),
            7 => {
                let n = r.range(20, 200);
                format!("{did}/p?q={}#{}", gen::word(r, n), gen::word(r, 2))
            }
            8.. => format!("{did}#key-{}", r.below(5000)),
            0 => format!("{did}#key-{}", r.below(30)),
            1 => format!("{did}#Key-{}", r.below(30)),
            2 => format!("{did}?versionId={}#k{}", r.below(5), r.below(30)),
            3 => {
                let n = r.range(1, 6);
                format!("{did}#{}", gen::word(r, n))
            }
            _ => format!("{did}#{}.{}", r.below(5), r.below(5)),
        })
        .collect();
    v.sort();
    v.dedup();
    r.shuffle(&mut v);
    v
}

fn apv_of(kids: &[String]) -> Vec<u8> {
    let mut k: Vec<&str> = kids.iter().map(|s| s.as_str()).collect();
    k.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
    Sha256::digest(k.join(".").as_bytes()).to_vec()
}

struct Env {
    kids: Vec<String>,
    header: Map<String, Value>,
}

fn header(r: &mut Rng, kids: &[String]) -> Map<String, Value> {
    let auth = r.bool();
    let mut h = Map::new();
    h.insert("typ".into(), json!("application/didcomm-encrypted+json"));
    h.insert("alg".into(), json!(if auth { "ECDH-1PU+A256KW" } else { "ECDH-ES+A256KW" }));
    h.insert("enc".into(), json!(r.pick(&["A256CBC-HS512", "A256GCM", "XC20P"])));
    h.insert("epk".into(), json!({"kty": "OKP", "crv": "X25519", "x": b64(&r.bytes(32))}));
    h.insert("apv".into(), json!(b64(&apv_of(kids))));
    if auth {
        let skid = format!("did:example:{}#key-{}", gen::word(r, 4), r.below(9));
        h.insert("apu".into(), json!(b64(skid.as_bytes())));
        if r.chance(4, 5) {
            h.insert("skid".into(), json!(skid));
        }
    }
    h
}

fn text(e: &Env, r: &mut Rng, unknown: bool) -> (String, Value) {
    let mut h = e.header.clone();
    if unknown {
        for _ in 0..r.below(3) {
            h.insert(format!("x-{}", gen::word(r, 3)), gen::json(r, 1));
        }
    }
    let ht = gen::restyle(&Value::Object(h), r, false);
    let rc: Vec<Value> = e
        .kids
        .iter()
        .map(|k| {
            let mut x = json!({"header": {"kid": k}, "encrypted_key": b64(&r.bytes(40))});
            if unknown && r.chance(1, 3) {
                x["header"]["x-u"] = gen::json(r, 1);
                x["x-u"] = gen::json(r, 1);
            }
            x
        })
        .collect();
    let (n, m) = (if r.chance(1, 500) { r.range(60_000, 150_000) } else { r.range(1, 80) }, *r.pick(&[12usize, 16, 24]));
    let mut v = json!({
        "protected": b64(ht.as_bytes()),
        "recipients": rc,
        "iv": b64(&r.bytes(m)),
        "ciphertext": b64(&r.bytes(n)),
        "tag": b64(&r.bytes(16)),
    });
    if unknown {
        for _ in 0..r.below(3) {
            v[format!("x-{}", gen::word(r, 3))] = gen::json(r, 1);
        }
    }
    (gen::restyle(&v, r, false), v)
}

pub fn c04(run: &mut Runner) {
    run.rule(
        "C04/parser: JWE texts with random recipient lists, orders, unknown members and header styles; consistent ones must pass the parser's addressing check,
         those with a wrong party-v hash, a party-u info that is not the sender key id, or a sender key id without party-u info must not. Distinct = (defect, number of recipients, unsorted).",
    );
    let n = run.cfg.n(160_000, 4_000_000);
    run.cases("addressing", n, |_, r, o| {
        let kids = kids(r);
        let mut e = Env { header: header(r, &kids), kids };
        let sorted = {
            let mut s = e.kids.clone();
            s.sort();
            s == e.kids
        };
        let good = apv_of(&e.kids);
        let set = |e: &mut Env, b: &[u8]| {
            e.header.insert("apv".into(), json!(b64(b)));
        };
        let sha = |s: String| Sha256::digest(s.as_bytes()).to_vec();
        let label = match r.below(24) {
            13 => {
                // the same key named twice, in the list and in the hash
                let x = r.pick(&e.kids).clone();
                let i = r.below(e.kids.len() + 1);
                e.kids.insert(i, x);
                let h = apv_of(&e.kids);
                set(&mut e, &h);
                "doubled everywhere"
            }
            14 => {
                let mut g = good.clone();
                let (i, j, b) = (r.below(32), r.below(32), 1u8 << r.below(8));
                match r.below(4) {
                    0 => g.swap(i, j),
                    1 => {
                        g[i] ^= b;
                        g[j] ^= b;
                    }
                    2 => g.rotate_left(1 + i % 31),
                    _ => {
                        g[i] = g[i].wrapping_add(1);
                        g[j] = g[j].wrapping_sub(1);
                    }
                }
                set(&mut e, &g);
                "apv bytes"
            }
            15 => {
                // hashes somebody may take for the right one
                let mut k = e.kids.clone();
                match r.below(6) {
                    0 => k.sort_by_key(|x| (x.len(), x.clone())),
                    1 => k.sort_by_key(|x| (x.to_lowercase(), x.clone())),
                    2 => k.sort_by_key(|x| x.chars().rev().collect::<String>()),
                    3 => {
                        k.sort();
                        k.truncate(1)
                    }
                    4 => {
                        k.sort();
                        k = k.iter().map(|x| x.split('#').next().unwrap().to_string()).collect()
                    }
                    _ => {
                        k.sort();
                        k = k.iter().map(|x| x.split('#').nth(1).unwrap().to_string()).collect()
                    }
                }
                set(&mut e, &sha(k.join(".")));
                "apv of something else"
            }
            16 => {
                // party-u info that is no text
                let skid = format!("did:example:{}#k\u{fffd}", gen::word(r, 3));
                let mut b = skid.clone().into_bytes();
                b.truncate(b.len() - 3);
                b.push(0xff);
                e.header.insert("skid".into(), json!(skid));
                e.header.insert("apu".into(), json!(b64(&b)));
                "apu is not text"
            }
            0 => {
                let h = sha(e.kids.join("."));
                set(&mut e, &h);
                "unsorted apv"
            }
            1 => {
                let mut k = e.kids.clone();
                k.pop();
                set(&mut e, &apv_of(&k));
                "apv misses a recipient"
            }
            2 => {
                let mut k = e.kids.clone();
                k.push(format!("{}x", k[0]));
                set(&mut e, &apv_of(&k));
                "apv has one more"
            }
            3 => {
                let mut k = e.kids.clone();
                k.sort();
                let s = *r.pick(&["", ",", "..", " ", "\n"]);
                set(&mut e, &sha(k.join(s)));
                "apv separator"
            }
            4 => {
                let n = r.below(32);
                set(&mut e, &good[..n]);
                "apv truncated"
            }
            5 => {
                let mut g = good.clone();
                g.push(r.u64() as u8);
                set(&mut e, &g);
                "apv longer"
            }
            6 => {
                let mut g = good.clone();
                g[r.below(32)] ^= 1 << r.below(8);
                set(&mut e, &g);
                "apv bit"
            }
            7 => {
                let mut k = e.kids.clone();
                k.push(k[0].clone());
                set(&mut e, &apv_of(&k));
                "apv doubles a recipient"
            }
            8 => {
                // the recipient list changed after the hash was made
                let i = r.below(e.kids.len());
                match r.below(3) {
                    0 => e.kids[i].push('0'),
                    1 => {
                        let x = e.kids[i].to_uppercase();
                        e.kids[i] = x
                    }
                    _ => {
                        let x = e.kids[i].clone();
                        e.kids.push(x)
                    }
                };
                "recipients changed"
            }
            9 => {
                let mut k = e.kids.clone();
                k.sort();
                k.reverse();
                set(&mut e, &sha(k.join(".")));
                "apv reverse sorted"
            }
            10..=12 => match (e.header.get("apu").is_some(), r.below(5)) {
                (true, 0) => {
                    let s = e.header.get("skid").cloned().unwrap_or_else(|| json!("did:example:z#1"));
                    e.header.insert("skid".into(), s);
                    e.header.remove("apu");
                    "skid without apu"
                }
                (false, 0) => {
                    e.header.insert("skid".into(), json!("did:example:z#1"));
                    "skid without apu"
                }
                (_, k) => {
                    let skid = "did:example:alice#key-1".to_string();
                    let apu = match k {
                        1 => "did:example:alice#key-10".to_string(),
                        2 => "did:example:alice#key-".to_string(),
                        3 => "did:example:Alice#key-1".to_string(),
                        _ => (*r.pick(&[
                            "", "did:example:alice", "did:example:bob#key-1", "did:example:alice#key-2", "did:example:alice?a=b#key-1", "#key-1", "key-1", "did:example:alice#key-1 ",
                            " did:example:alice#key-1", "did:example:alice#key-1\n", "did:example:alice#key-1\0", "did:example:alice%23key-1", "did:example:alic\u{435}#key-1", "did:example:alice#key-1#key-1",
                            "did:example:ecila#key-1", "DID:EXAMPLE:ALICE#KEY-1", "did:example:alice#1-key", "did:example:alicf#key-0",
                        ]))
                        .to_string(),
                    };
                    let (skid, apu) = if r.chance(1, 4) { (apu, skid) } else { (skid, apu) };
                    e.header.insert("skid".into(), json!(skid));
                    e.header.insert("apu".into(), json!(b64(apu.as_bytes())));
                    "apu is not skid"
                }
            },
            _ => "",
        };
        // Is the result consistent after all? Decided on the finished header.
        let apv_ok = e.header["apv"] == json!(b64(&apv_of(&e.kids)));
        let apu = e.header.get("apu").and_then(|a| a.as_str()).map(|a| base64::decode_config(a, base64::URL_SAFE_NO_PAD).unwrap());
        let skid = e.header.get("skid").and_then(|s| s.as_str());
        let apu_ok = match (&apu, skid) {
            (Some(a), Some(s)) => a == s.as_bytes(),
            (None, Some(_)) => false,
            _ => true,
        };
        let unknown = r.bool();
        let (t, _) = text(&e, r, unknown);
        let got = guard(|| {
            let mut buf = vec![];
            jwe::parse(&t, &mut buf).map_err(|e| format!("parse: {e}")).and_then(|p| p.verify_didcomm().map(|p| p.jwe.recipients.len()).map_err(|e| format!("verify: {e}")))
        });
        o.sample(|| json!({"defect": label, "jwe": vcommon::cut(&t, 300)}));
        o.eval(&format!("{label}/{}/{sorted}/{unknown}/{:?}", e.kids.len(), (&e.header["alg"], &e.header["enc"], apu.is_some(), skid.is_some())));
        match (apv_ok && apu_ok, got) {
            (true, Ok(Ok(n))) => {
                o.count("consistent: accepted");
                o.check(n == e.kids.len(), "recipients-lost", || json!({"text": t}));
            }
            (false, Ok(Err(_))) => o.count("inconsistent: rejected"),
            (true, Ok(Err(x))) => o.violation("consistent-rejected", json!({"text": t, "header": e.header, "kids": e.kids, "error": x})),
            (false, Ok(Ok(_))) => o.violation(format!("accepted: {label}"), json!({"text": t, "header": e.header, "kids": e.kids})),
            (_, Err(p)) => o.violation("panic", json!({"text": t, "panic": p.to_string()})),
        }
    });
    run.require("consistent: accepted", 5000);
    run.require("inconsistent: rejected", 5000);
}

/// The same name written slightly differently.
fn near(r: &mut Rng, name: &str) -> String {
    let cs: Vec<char> = name.chars().collect();
    let i = r.below(cs.len());
    match r.below(9) {
        0 => name.to_lowercase(),
        1 => format!("{name} "),
        2 => format!(" {name}"),
        3 => cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect(),
        4 => cs.iter().enumerate().map(|(j, c)| if j == i { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { *c }).collect(),
        5 => cs.iter().enumerate().flat_map(|(j, c)| if j == i { vec![*c, *c] } else { vec![*c] }).collect(),
        6 => name.replace('-', "_").replace('+', "-"),
        7 => r.pick(&["ECDH-ES", "ECDH-1PU", "ECDH-ES+A128KW", "ECDH-1PU+A128KW", "A128GCM", "A192GCM", "A128CBC-HS256", "C20P", "dir", "none", "Other", "Ecdh1puA256kw", "EcdhEsA256kw", "A256cbcHs512", "Xc20P", "A256Gcm", "A256GCMKW", "RSA-OAEP", "XC20PKW"]).to_string(),
        _ => gen::text(r),
    }
}

const ALGS: [&str; 2] = ["ECDH-1PU+A256KW", "ECDH-ES+A256KW"];
const ENCS: [&str; 3] = ["A256CBC-HS512", "XC20P", "A256GCM"];

fn alg_name(a: &Algorithm) -> String {
    match a {
        Algorithm::Ecdh1puA256kw => ALGS[0].into(),
        Algorithm::EcdhEsA256kw => ALGS[1].into(),
        Algorithm::Other(s) => format!("other:{s}"),
    }
}
fn enc_name(a: &EncAlgorithm) -> String {
    match a {
        EncAlgorithm::A256cbcHs512 => ENCS[0].into(),
        EncAlgorithm::Xc20P => ENCS[1].into(),
        EncAlgorithm::A256Gcm => ENCS[2].into(),
        EncAlgorithm::Other(s) => format!("other:{s}"),
    }
}

pub fn c21(run: &mut Runner) {
    run.rule("C21/names: every registered key agreement and content algorithm name and random near spellings of them, read and written as header values. Distinct = spelling.");
    let n = run.cfg.n(400_000, 6_000_000);
    run.cases("names", n, |_, r, o| {
        let base = *r.pick(&["ECDH-1PU+A256KW", "ECDH-ES+A256KW", "A256CBC-HS512", "XC20P", "A256GCM"]);
        let name = if r.chance(1, 4) { base.to_string() } else { near(r, base) };
        let q = gen::restyle(&json!(name), r, true);
        let exp_a = if ALGS.contains(&name.as_str()) { name.clone() } else { format!("other:{name}") };
        let exp_e = if ENCS.contains(&name.as_str()) { name.clone() } else { format!("other:{name}") };
        o.count(if exp_a == name || exp_e == name { "registered name" } else { "unknown name" });
        o.eval(&name);
        o.sample(|| json!({"name": name}));
        let got = guard(|| {
            let a: Algorithm = serde_json::from_str(&q).map_err(|e| e.to_string())?;
            let e: EncAlgorithm = serde_json::from_str(&q).map_err(|e| e.to_string())?;
            Ok::<_, String>((alg_name(&a), a.as_str().to_string(), serde_json::to_value(&a).unwrap(), enc_name(&e), serde_json::to_value(&e).unwrap()))
        });
        let exp = Ok(Ok((exp_a, name.clone(), json!(name), exp_e, json!(name))));
        o.check(got == exp, "algorithm-name", || json!({"name": name, "expected": format!("{exp:?}"), "got": format!("{got:?}")}));
    });
    run.require("registered name", 1000);
    run.require("unknown name", 1000);
}

pub fn c08(run: &mut Runner) {
    run.rule("C08/envelope: JWE envelopes with random recipients, header styles and unknown members; what the parser reports is compared with what was written, and written envelopes with the RFC 7516 general JSON form. Distinct = (header members, recipients).");
    let n = run.cfg.n(80_000, 2_000_000);
    run.cases("parse", n, |_, r, o| {
        let kids = kids(r);
        let e = Env { header: header(r, &kids), kids };
        let (t, v) = text(&e, r, true);
        let mut buf = vec![];
        let got = guard(|| {
            jwe::parse(&t, &mut buf)
                .map(|p| {
                    json!({
                        "protected": p.jwe.protected, "iv": p.jwe.iv, "ciphertext": p.jwe.ciphertext, "tag": p.jwe.tag,
                        "recipients": p.jwe.recipients.iter().map(|x| json!([x.header.kid, x.encrypted_key])).collect::<Vec<_>>(),
                        "typ": p.protected.typ, "alg": alg_name(&p.protected.alg), "enc": enc_name(&p.protected.enc), "skid": p.protected.skid, "epk": p.protected.epk,
                        "apu": p.apu, "apv": p.apv,
                    })
                })
                .map_err(|e| e.to_string())
        });
        let h = &e.header;
        let dec = |k: &str| h.get(k).and_then(|x| x.as_str()).map(|x| base64::decode_config(x, base64::URL_SAFE_NO_PAD).unwrap());
        let exp = json!({
            "protected": v["protected"], "iv": v["iv"], "ciphertext": v["ciphertext"], "tag": v["tag"],
            "recipients": v["recipients"].as_array().unwrap().iter().map(|x| json!([x["header"]["kid"], x["encrypted_key"]])).collect::<Vec<_>>(),
            "typ": h["typ"], "alg": h["alg"], "enc": h["enc"], "skid": h.get("skid"), "epk": h["epk"], "apu": dec("apu"), "apv": dec("apv"),
        });
        o.eval(&format!("{:?}{}", h.keys().collect::<Vec<_>>(), e.kids.len()));
        o.sample(|| json!({"jwe": vcommon::cut(&t, 300)}));
        match got {
            Ok(Ok(g)) => {
                o.check(g == exp, "envelope-parse", || json!({"text": t, "expected": exp, "got": g}));
            }
            Ok(Err(x)) => o.violation("envelope-refused", json!({"text": t, "error": x})),
            Err(p) => o.violation("panic", json!({"text": t, "panic": p.to_string()})),
        }
        // writing
        let hs = |k: &str| h.get(k).and_then(|x| x.as_str());
        let ph = ProtectedHeader {
            typ: Some(std::borrow::Cow::Borrowed(hs("typ").unwrap())),
            alg: if hs("alg") == Some(ALGS[0]) { Algorithm::Ecdh1puA256kw } else { Algorithm::EcdhEsA256kw },
            enc: match hs("enc").unwrap() {
                "XC20P" => EncAlgorithm::Xc20P,
                "A256GCM" => EncAlgorithm::A256Gcm,
                _ => EncAlgorithm::A256cbcHs512,
            },
            skid: hs("skid"),
            apu: hs("apu"),
            apv: hs("apv").unwrap(),
            epk: h["epk"].clone(),
        };
        o.check(serde_json::to_value(&ph).ok() == Some(Value::Object(h.clone())), "header-write", || json!({"expected": h, "got": serde_json::to_value(&ph).ok()}));
        let keys: Vec<String> = e.kids.iter().map(|_| b64(&[1, 2, 3])).collect();
        let j = JWE {
            protected: "p",
            recipients: e.kids.iter().zip(&keys).map(|(k, x)| Recipient { header: PerRecipientHeader { kid: k }, encrypted_key: x }).collect(),
            iv: "i",
            ciphertext: "c",
            tag: "t",
        };
        let exp = json!({"protected": "p", "iv": "i", "ciphertext": "c", "tag": "t", "recipients": e.kids.iter().zip(&keys).map(|(k, x)| json!({"header": {"kid": k}, "encrypted_key": x})).collect::<Vec<_>>()});
        o.check(serde_json::to_value(&j).ok() == Some(exp.clone()), "envelope-write", || json!({"expected": exp, "got": serde_json::to_value(&j).ok()}));
    });
}

fn mangle(t: &str, r: &mut Rng) -> String {
    let mut b = t.as_bytes().to_vec();
    for _ in 0..r.range(1, 4) {
        let i = r.below(b.len().max(1));
        match r.below(7) {
            0 if !b.is_empty() => b[i] = r.u64() as u8,
            1 if !b.is_empty() => {
                b.remove(i);
            }
            2 => b.insert(i.min(b.len()), *r.pick(b"{}[]\",:0-\\e\x00\xff")),
            3 => b.truncate(i),
            4 => {
                let j = r.below(b.len() + 1);
                let (i, j) = (i.min(j), i.max(j));
                let s = b[i..j].to_vec();
                let k = r.below(b.len() + 1);
                b.splice(k..k, s);
            }
            5 => {
                let w = *r.pick(&["null", "\"\"", "[]", "{}", "-1", "1e999", "18446744073709551616", "\"\\ud800\"", "true"]);
                b.splice(i.min(b.len())..i.min(b.len()), w.bytes());
            }
            _ => b.extend(r.bytes(3)),
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// A text that is nearly an envelope or nearly a message.
fn hostile(r: &mut Rng) -> String {
    let kids = kids(r);
    let e = Env { header: header(r, &kids), kids };
    let (t, v) = text(&e, r, true);
    match r.below(4) {
        0 => mangle(&t, r),
        1 => {
            let mut v = v;
            let h = mangle(&serde_json::to_string(&e.header).unwrap(), r);
            v["protected"] = json!(b64(h.as_bytes()));
            v.to_string()
        }
        2 => {
            let mut v = v;
            let k = *r.pick(&["protected", "iv", "tag", "ciphertext", "recipients"]);
            v[k] = gen::json(r, 2);
            v.to_string()
        }
        _ => {
            let m = gmsg::message(r);
            mangle(&serde_json::to_string(&m).unwrap(), r)
        }
    }
}

pub fn c10(run: &mut Runner) {
    run.rule("C10/parser: mangled texts and protected headers given to the envelope parser and the plaintext reader; whatever is refused is refused as Malformed. Distinct = (reader, length class).");
    let n = run.cfg.n(60_000, 1_500_000);
    run.cases("refusals", n, |_, r, o| {
        let t = hostile(r);
        let got = guard(|| {
            let mut buf = vec![];
            let a = jwe::parse(&t, &mut buf).and_then(|p| p.verify_didcomm().map(|_| ())).err();
            let b = Message::from_str(&t).and_then(|m| m.validate()).err();
            [a, b].map(|e| e.map(|e| (e.kind(), e.to_string())))
        });
        match got {
            Ok(x) => {
                for (what, x) in ["parser", "reader"].iter().zip(x) {
                    if let Some((k, text)) = x {
                        o.count("refused");
                        o.eval(&format!("{what}{}", t.len() / 16));
                        o.sample(|| json!({"text": vcommon::cut(&t, 200), "error": text}));
                        o.check(k == crate::dc::error::ErrorKind::Malformed, &format!("kind ({what})"), || json!({"text": t, "error": text, "kind": format!("{k:?}")}));
                    }
                }
            }
            Err(p) => o.violation("panic", json!({"text": t, "panic": p.to_string()})),
        }
    });
    run.require("refused", 10_000);
}

pub fn c09(run: &mut Runner) {
    run.rule("C09/parser: mangled and random texts and protected headers given to the envelope parser and the plaintext reader. Distinct = outcome class.");
    let n = run.cfg.n(120_000, 3_000_000);
    run.cases("parser", n, |_, r, o| {
        let t = hostile(r);
        let got = guard(|| {
            let mut buf = vec![];
            let a = jwe::parse(&t, &mut buf).and_then(|p| p.verify_didcomm().map(|_| ())).is_ok();
            let b = Message::from_str(&t).and_then(|m| m.validate()).is_ok();
            (a, b)
        });
        match got {
            Ok(x) => {
                o.count("returned");
                o.sample(|| json!({"text": vcommon::cut(&t, 200)}));
                o.eval(&format!("{x:?}{}", t.len() / 16))
            }
            Err(p) => {
                o.eval("panic");
                o.violation("panic", json!({"text": t, "panic": p.to_string()}))
            }
        }
    });
    run.require("returned", 1000);
}

pub fn c14(run: &mut Runner) {
    run.rule("C14/reader: messages with the right, a missing and other typ values given to the plaintext reader. Distinct = typ value.");
    let n = run.cfg.n(100_000, 2_000_000);
    run.cases("typ", n, |_, r, o| typ(r, o));
    run.require("other typ refused", 1000);
    run.require("plaintext typ read", 1000);
}

fn typ(r: &mut Rng, o: &mut Obs) {
    let mut m = gmsg::message(r);
    m.from = if r.bool() { Some(gen::text(r)) } else { None };
    let mut v = gmsg::message_json(&m);
    let ok = match r.below(3) {
        0 => true,
        1 => {
            v.as_object_mut().unwrap().remove("typ");
            true
        }
        _ => {
            let t = match r.below(6) {
                0 => "application/didcomm-encrypted+json".into(),
                1 => "didcomm-plain+json".into(),
                2 => gmsg::PLAIN.to_uppercase(),
                3 => format!("{}{}", gmsg::PLAIN, r.pick(&[" ", ";", "x", "; charset=utf-8"])),
                4 => gmsg::PLAIN[..r.below(gmsg::PLAIN.len())].to_string(),
                _ => gen::text(r),
            };
            v["typ"] = json!(t);
            t == gmsg::PLAIN
        }
    };
    let t = gen::restyle(&v, r, true);
    o.eval(&format!("{:?}", v.get("typ")));
    o.sample(|| json!({"text": vcommon::cut(&t, 200)}));
    match guard(|| Message::from_str(&t).and_then(|m| m.validate())) {
        Ok(Ok(b)) if ok => {
            o.count("plaintext typ read");
            o.check(gmsg::same(&m, &b), "reread-differs", || json!({"text": t, "got": gmsg::message_json(&b)}));
        }
        Ok(Err(_)) if !ok => o.count("other typ refused"),
        Ok(Ok(_)) => o.violation("accepted: other typ", json!({"text": t})),
        Ok(Err(e)) => o.violation("refused: plaintext", json!({"text": t, "error": e.to_string()})),
        Err(p) => o.violation("panic", json!({"text": t, "panic": p.to_string()})),
    }
}
