//! C04 on whole messages: everything but the addressing is right, down to authentication tags and key derivation.
use crate::{gmsg, refc::*, refjose::*, scn::*, world::*};
use serde_json::{json, Value};
use vcommon::{gen, Obs, Rng, Runner};

pub fn run(run: &mut Runner) {
    run.rule(
        "An independent implementation encrypts a message to 1..12 keys with addressing that is consistent or broken in one way (party-v
         info of other kids, unsorted, joined otherwise, truncated, empty; party-u info and sender key id different, missing or malformed;
         no recipients; recipients of several DIDs; kids without fragment), all cryptography following the broken header; unpack must
         refuse the broken ones and accept the consistent ones. Distinct by defect, layer, number and order of recipients.",
    );
    run.assume("askar-crypto is replaced by a stand-in over OpenSSL (the real crate is not available offline).");
    let n = run.cfg.n(6000, 250_000);
    run.cases("messages", n, |_, r, obs| {
        let crv = *r.pick(&[Crv::X25519, Crv::P256]);
        let n = *r.pick(&[1, 1, 2, 3, 5, 12]);
        let rcp = party(r, &vec![crv; n]);
        let mut other = party(r, &[crv, crv]);
        if r.bool() {
            // a DID whose text contains the recipient's or differs from it by a letter or its case
            other.did = if r.bool() { format!("{}x", rcp.did) } else { did_alike(r, &rcp.did) };
            while other.did == rcp.did {
                other.did = did_alike(r, &rcp.did);
            }
            for (i, k) in other.ka.iter_mut().enumerate() {
                k.kid = format!("{}#k{i}", other.did);
            }
        }
        let snd = party(r, &[crv, crv]);
        let auth = r.bool();
        let mut order: Vec<&KeyEntry> = rcp.ka.iter().collect();
        r.shuffle(&mut order);
        let mut recips: Vec<(String, Key)> = order.iter().map(|k| (k.kid.clone(), k.key.public())).collect();
        let mut docs = vec![rcp.doc(), other.doc(), snd.doc()];
        let mut secrets: Vec<_> = rcp.ka.iter().chain(&other.ka).map(|k| k.secret()).collect();
        let sk = snd.ka[0].clone();
        let enc = if auth { "A256CBC-HS512" } else { *r.pick(&ENCS) };
        let defect = if r.chance(1, 3) { 0 } else { r.range(1, 21) };
        let mut what = "consistent";
        let mut bad = true;
        // recipients first: the rest follows them
        match defect {
            19 | 20 => {
                // a key addressed twice
                let k = r.below(recips.len());
                let x = recips[k].clone();
                let i = r.below(recips.len() + 1);
                recips.insert(i, x);
            }
            1 => {
                recips.push((other.ka[0].kid.clone(), other.ka[0].key.public()));
                let k = r.below(recips.len());
                let x = recips.len() - 1;
                recips.swap(k, x);
                what = "recipients of two DIDs";
            }
            2 => {
                let i = r.below(recips.len());
                recips[i].0 = rcp.did.clone();
                secrets.push({
                    let mut s = order[i].secret();
                    s.id = rcp.did.clone();
                    s
                });
                what = "recipient id without fragment";
            }
            _ => {}
        }
        let mut p = Plan::new(r, enc, &recips, if auth { Some((&sk.kid, &sk.key)) } else { None });
        let kids: Vec<String> = recips.iter().map(|x| x.0.clone()).collect();
        let mut sorted = kids.clone();
        sorted.sort();
        let apv = |v: Vec<u8>| json!(b64(&v));
        match defect {
            1 | 2 => {}
            3 => {
                p.recips.clear();
                p.header.insert("apv".into(), apv(sha256(b"")));
                what = "no recipients";
            }
            4 => {
                p.header.insert("apv".into(), apv(r.bytes(32)));
                what = "apv of something else";
            }
            5 if kids.len() > 1 => {
                let mut k = sorted.clone();
                k.reverse();
                p.header.insert("apv".into(), apv(sha256(k.join(".").as_bytes())));
                what = "apv of unsorted ids";
            }
            6 if kids.len() > 1 => {
                p.header.insert("apv".into(), apv(sha256(sorted.join(*r.pick(&["", ",", " "])).as_bytes())));
                what = "apv joined otherwise";
            }
            7 => {
                let mut k = sorted.clone();
                k.push(format!("{}#zz", rcp.did));
                p.header.insert("apv".into(), apv(sha256(k.join(".").as_bytes())));
                what = "apv of one more id";
            }
            8 => {
                let mut k = sorted.clone();
                k.pop();
                p.header.insert("apv".into(), apv(sha256(k.join(".").as_bytes())));
                what = "apv of one id less";
            }
            9 => {
                let h = sha256(sorted.join(".").as_bytes());
                let cut = *r.pick(&[0usize, 1, 16, 31]);
                p.header.insert("apv".into(), apv(h[..cut].to_vec()));
                what = "apv truncated";
            }
            10 => {
                let mut h = sha256(sorted.join(".").as_bytes());
                let m = r.range(1, 3);
                h.extend(r.bytes(m));
                p.header.insert("apv".into(), apv(h));
                what = "apv extended";
            }
            11 if auth => {
                p.header.insert("apu".into(), json!(b64(snd.ka[1].kid.as_bytes())));
                p.sender = Some(snd.ka[1].key.clone());
                what = "apu of another key of the sender";
            }
            12 if auth => {
                p.header.insert("skid".into(), json!(snd.ka[1].kid));
                what = "skid of another key of the sender";
            }
            13 => {
                p.header.remove("apu");
                p.header.insert("skid".into(), json!(sk.kid));
                what = "skid without apu";
            }
            14 if auth => {
                p.header.insert("skid".into(), json!(*r.pick(&["", "x"])));
                what = "skid different from apu";
            }
            15 => {
                // not text
                p.header.insert("apu".into(), json!(b64(&[0xff, 0xfe, 0x80])));
                what = "apu is not text";
            }
            16 if auth => {
                p.header.insert("apu".into(), json!(b64(format!("{} ", sk.kid).as_bytes())));
                what = "apu with a blank more than skid";
            }
            17 => {
                p.header.insert("apu".into(), json!(format!("{}=", b64(sk.kid.as_bytes()))));
                p.header.insert("skid".into(), json!(sk.kid));
                what = "apu with padding or stray characters";
            }
            16 => {
                p.header.insert("apu".into(), json!(b64(sk.kid.as_bytes())));
                p.header.insert("skid".into(), json!(r.pick(&[format!("{} ", sk.kid), format!(" {}", sk.kid), format!("{}\n", sk.kid), format!("{}#", sk.kid)])));
                what = "skid different from apu";
            }
            19 | 20 => {
                let mut k = sorted.clone();
                k.dedup();
                p.header.insert("apv".into(), apv(sha256(k.join(".").as_bytes())));
                what = "apv of an id less than listed";
            }
            21 if auth => {
                let mut x = sk.kid.clone();
                if x.to_ascii_uppercase() == x || r.bool() {
                    x.push(*r.pick(&[' ', '\n', '\t', '\0']));
                } else {
                    x = format!("{}{}", &x[..snd.did.len()], x[snd.did.len()..].to_ascii_uppercase());
                    if x == sk.kid {
                        x.push('K');
                    }
                }
                p.header.insert("skid".into(), json!(x));
                what = "skid different from apu";
            }
            18 if !auth => {
                p.header.insert("skid".into(), json!(sk.kid));
                p.header.insert("apu".into(), json!(b64(snd.ka[1].kid.as_bytes())));
                what = "skid different from apu";
            }
            _ => {
                bad = false;
                if auth && r.chance(1, 4) {
                    p.header.remove("skid");
                    what = "consistent, apu only";
                }
                if r.bool() {
                    p.header.insert("x-unknown".into(), gen::json(r, 1));
                    p.header.insert("crit2".into(), json!(["a"]));
                }
            }
        }
        let msg = {
            let mut m = gmsg::message(r);
            if auth {
                m.from = Some(snd.did.clone());
            }
            m
        };
        let text = gmsg::message_json(&msg).to_string();
        let header = gen::restyle(&Value::Object(p.header.clone()), r, false);
        let sealed = p.seal_with(&header, text.as_bytes());
        let mut v = sealed.json();
        if !bad && r.bool() {
            v["x-unknown"] = gen::json(r, 1);
            v["recipients"][0]["header"]["x"] = json!(1);
            v["recipients"][0]["y"] = json!(null);
            v["unprotected"] = json!({"z": 1});
        }
        let wire = gen::restyle(&v, r, false);
        r.shuffle(&mut docs);
        let (dr, sr) = (Dr::of(docs), Sr::of(secrets));
        let o = opts(false, r.bool());
        obs.eval(&format!("{what}{auth}{}{:?}", kids.len(), crv));
        obs.count(&format!("{what}"));
        obs.sample(|| json!({"addressing": what, "recipients": kids.len()}));
        match unpack(&wire, &dr, &sr, &o) {
            Ok(Ok((m, _))) if bad => obs.violation(format!("accepted {what}"), json!({"message": wire, "unpacked": gmsg::message_json(&m)})),
            Ok(Ok((m, meta))) => {
                if !gmsg::same(&m, &msg) || meta.encrypted_to_kids.as_ref() != Some(&kids) {
                    obs.violation("consistent-envelope-misread", json!({"message": wire, "kids": meta.encrypted_to_kids}));
                }
            }
            Ok(Err(e)) if !bad => obs.violation("consistent-envelope-refused", json!({"error": e.to_string(), "message": wire, "what": what})),
            Ok(Err(_)) => obs.count("refused"),
            Err(a) => obs.violation("abnormal", json!({"what": a.to_string(), "message": wire})),
        }
    });
    run.require("refused", 500);
}
