//! C09 on the whole library: hostile input everywhere, watched for panics, overflows, crashes and endless work.
use crate::{
    dc::{
        did::{DIDDoc, ServiceKind},
        protocols::routing::{try_parse_forward, wrap_in_forward},
        secrets::Secret,
        Attachment, FromPrior, Message, PackEncryptedOptions, UnpackOptions,
    },
    gmsg,
    hostile::{self, HDr, HSr},
    refc::*,
    refjose::*,
    scn::*,
    world,
    world::*,
};
use serde_json::{json, Value};
use vcommon::{gen, guard, Abnormal, Obs, Rng, Runner};

fn judge<T, E: std::fmt::Display>(obs: &mut Obs, what: &str, res: Result<Result<T, E>, Abnormal>, w: impl FnOnce() -> Value) -> Option<T> {
    obs.count(what);
    match res {
        Ok(Ok(x)) => {
            obs.count("succeeded");
            obs.eval(&format!("{what} ok"));
            Some(x)
        }
        Ok(Err(e)) => {
            obs.count("refused");
            // told apart by where it was refused
            let t: String = e.to_string().chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(40).collect();
            obs.eval(&format!("{what} {t}"));
            None
        }
        Err(a) => {
            let place = a.to_string();
            let place = place.rsplit(" at ").next().unwrap_or("").to_string();
            obs.violation(format!("{what}: {}", if a == Abnormal::Stuck { "never completes".into() } else { place }), json!({"what": a.to_string(), "input": w()}));
            None
        }
    }
}

/// Valid texts of every kind between the parties of a scenario.
fn seed_text(s: &Scn, r: &mut Rng) -> String {
    match s.pack() {
        Ok(Ok(p)) => {
            if r.bool() {
                s.deliver(&p.text).unwrap_or(p.text)
            } else {
                p.text
            }
        }
        _ => gmsg::message_json(&s.msg).to_string(),
    }
}

fn hostile_plain(s: &Scn, r: &mut Rng) -> String {
    let known: Vec<String> = s.parties.iter().flat_map(|p| p.all().map(|k| k.kid.clone()).chain([p.did.clone()])).collect();
    let mut v = gmsg::message_json(&s.msg);
    match r.below(8) {
        0 => v["from"] = json!(hostile::id(r, &known)),
        1 => {
            v["from_prior"] = json!(match r.below(6) {
                0 => "".to_string(),
                1 => "..".to_string(),
                2 => gen::text(r),
                _ => {
                    let iss = &s.parties[3];
                    let k = r.pick(&iss.auth).clone();
                    let mut h = json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid});
                    let mut c = json!({"iss": iss.did, "sub": s.parties[0].did});
                    match r.below(3) {
                        0 => hostile::mutate(&mut h, r),
                        1 => hostile::mutate(&mut c, r),
                        _ => h["kid"] = json!(hostile::id(r, &known)),
                    }
                    let t = jwt(&h, c.to_string().as_bytes(), &k.key);
                    if r.chance(1, 3) {
                        hostile::text(&t, r)
                    } else {
                        t
                    }
                }
            })
        }
        2 | 3 => {
            // forwards, possibly of forwards, to anyone
            v["type"] = json!("https://didcomm.org/routing/2.0/forward");
            let next = hostile::id(r, &known);
            v["body"] = json!({"next": next});
            let inner = if r.bool() { hostile::value(r) } else { json!({"protected": "", "recipients": [], "iv": "", "ciphertext": "", "tag": ""}) };
            v["attachments"] = json!([{"data": {"json": inner}}]);
            if r.bool() {
                // numbers nobody vouches for
                for _ in 0..r.below(3) {
                    v["attachments"].as_array_mut().unwrap().push(json!({"data": {"base64": "AA"}}));
                }
                for a in v["attachments"].as_array_mut().unwrap() {
                    a["byte_count"] = json!(gen::u64v(r));
                    a["lastmod_time"] = json!(gen::u64v(r));
                }
                v["created_time"] = json!(gen::u64v(r));
                v["expires_time"] = json!(gen::u64v(r));
            }
            if r.chance(1, 3) {
                hostile::mutate(&mut v, r);
            }
        }
        4 => return hostile::text(&v.to_string(), r),
        _ => hostile::mutate(&mut v, r),
    }
    v.to_string()
}

/// Encrypted and signed envelopes made by the reference so that the hostile part is reached behind valid cryptography.
fn sealed(s: &Scn, r: &mut Rng, inner: &str) -> String {
    let rcp = &s.parties[1];
    let crv = rcp.ka[r.below(rcp.ka.len())].key.crv;
    let mut recips: Vec<(String, Key)> = rcp.ka_of(crv).iter().map(|k| (k.kid.clone(), k.key.public())).collect();
    if r.chance(1, 10) {
        let i = r.below(recips.len());
        recips[i].0 = hostile::id(r, &known(s));
    }
    let snd = s.parties[0].ka.iter().find(|k| k.key.crv == crv).cloned();
    let auth = snd.is_some() && r.bool();
    let enc = if auth { "A256CBC-HS512" } else { *r.pick(&ENCS) };
    let mut p = Plan::new(r, enc, &recips, if auth { snd.as_ref().map(|k| (k.kid.as_str(), &k.key)) } else { None });
    let mut cut = None;
    match r.below(9) {
        0 => cut = Some(*r.pick(&[0usize, 8, 16, 24, 40, 48, 64, 72])),
        1 => {
            let k = p.header.keys().nth(r.below(p.header.len())).unwrap().clone();
            let mut v = p.header[&k].clone();
            hostile::mutate(&mut v, r);
            p.header.insert(k, v);
        }
        2 => {
            p.header.insert("enc".into(), json!(*r.pick(&ENCS)));
        }
        3 => {
            // someone who claims to be the sender, consistently
            let k = hostile::id(r, &known(s));
            p.header.insert("apu".into(), json!(b64(k.as_bytes())));
            if r.bool() {
                p.header.insert("skid".into(), json!(k));
            }
        }
        _ => {}
    }
    let mut x = p.seal(inner.as_bytes());
    if let Some(n) = cut {
        let k = r.bytes(n);
        if n >= 16 {
            x.recips = p.wraps(&x.tag, &k);
        }
    }
    match r.below(12) {
        0 => {
            let n = *r.pick(&[0usize, 1, 8, 11, 13, 16, 23, 25, 100]);
            x.iv = r.bytes(n)
        }
        1 => x.ct.truncate(r.below(x.ct.len() + 1)),
        2 => x.tag.truncate(r.below(x.tag.len() + 1)),
        3 => {
            // the tag is part of the key derivation: keep the wrapped keys in step
            let n = *r.pick(&[0usize, 1, 16, 31, 33, 64]);
            x.tag = r.bytes(n);
            x.recips = p.wraps(&x.tag, &p.cek);
        }
        4 => {
            let n = *r.pick(&[0usize, 1, 8, 16, 23, 24, 40, 80]);
            let i = r.below(x.recips.len());
            x.recips[i].1 = r.bytes(n);
        }
        _ => {}
    }
    x.text()
}

fn envelope(s: &Scn, r: &mut Rng) -> (String, &'static str) {
    match r.below(8) {
        0 => {
            let t = seed_text(s, r);
            (hostile::text(&t, r), "damaged text")
        }
        1 | 2 => {
            let t = seed_text(s, r);
            match serde_json::from_str::<Value>(&t) {
                Ok(mut v) => {
                    for _ in 0..r.range(1, 3) {
                        hostile::mutate(&mut v, r);
                    }
                    (v.to_string(), "damaged structure")
                }
                Err(_) => (t, "damaged structure"),
            }
        }
        3 => (hostile_plain(s, r), "hostile plaintext"),
        4 => {
            let p = hostile_plain(s, r);
            let k = r.pick(&s.parties[0].auth).clone();
            let mut h = json!({"typ": "application/didcomm-signed+json", "alg": k.key.crv.sign_alg()});
            if r.chance(1, 3) {
                hostile::mutate(&mut h, r);
            }
            let kid = if r.chance(1, 4) { hostile::id(r, &known(s)) } else { k.kid.clone() };
            let mut v = jws_with(p.as_bytes(), &[(kid, k.key.clone(), h)]);
            if r.chance(1, 4) {
                hostile::mutate(&mut v, r);
            }
            let t = v.to_string();
            (if r.bool() { sealed(s, r, &t) } else { t }, "hostile plaintext, signed")
        }
        5 => {
            let p = hostile_plain(s, r);
            (sealed(s, r, &p), "hostile plaintext, encrypted")
        }
        6 => {
            let p = hostile_plain(s, r);
            let t = sealed(s, r, &p);
            (sealed(s, r, &t), "hostile envelope in an envelope")
        }
        _ => {
            // many layers of re-wrapped forwards
            let mut t = hostile_plain(s, r);
            let n = r.range(1, 4);
            for _ in 0..n {
                t = sealed(s, r, &t);
                if let Ok(v) = serde_json::from_str::<Value>(&t) {
                    let next = if r.bool() { s.parties[1].did.clone() } else { s.parties[1].ka[0].kid.clone() };
                    t = json!({"id": "1", "typ": gmsg::PLAIN, "type": "https://didcomm.org/routing/2.0/forward", "body": {"next": next}, "attachments": [{"data": {"json": v}}]}).to_string();
                }
            }
            (sealed(s, r, &t), "re-wrapped forwards")
        }
    }
}

fn known(s: &Scn) -> Vec<String> {
    let mut v: Vec<String> = s.parties.iter().flat_map(|p| p.all().map(|k| k.kid.clone()).chain([p.did.clone()])).collect();
    v.extend(s.parties.iter().flat_map(|p| p.services.iter().map(|s| s.id.clone())));
    v
}

/// Resolvers, honest or not.
fn resolvers(s: &Scn, r: &mut Rng, all: bool) -> (HDr, HSr) {
    let k = known(s);
    let mut docs: Vec<DIDDoc> = s.parties.iter().map(|p| p.doc()).collect();
    let mut secrets: Vec<Secret> = if all { s.parties.iter().flat_map(|p| p.all().map(|k| k.secret()).collect::<Vec<_>>()).collect() } else { s.parties[1].all().chain(s.parties[0].all()).map(|k| k.secret()).collect() };
    if r.bool() {
        for _ in 0..r.range(1, 2) {
            let i = if r.chance(2, 3) { r.below(2) } else { r.below(docs.len()) };
            let old = docs[i].id.clone();
            hostile::doc(&mut docs[i], r, &k);
            // served under the id asked for, whatever it says of itself
            if docs[i].id != old {
                let mut d = docs[i].clone();
                d.id = old;
                docs.push(d);
            }
        }
    }
    if r.bool() {
        for _ in 0..r.range(1, 3) {
            let i = r.below(secrets.len());
            hostile::secret(&mut secrets[i], r);
        }
    }
    let any = if r.chance(1, 6) { Some(docs[r.below(docs.len())].clone()) } else { None };
    let other = secrets.get(r.below(secrets.len())).cloned();
    let how = if r.chance(2, 3) { 0 } else { r.range(1, 5) };
    (HDr { dr: Dr::of(docs), any }, HSr { sr: Sr::of(secrets).reversed(r.bool()), how, other })
}

/// Parties under names that are anything but plain.
fn rename(r: &mut Rng, s: &mut Scn) {
    for p in 0..4 {
        if r.bool() {
            continue;
        }
        let old = s.parties[p].did.clone();
        let n = *r.pick(&[10, 40, 130, 300]);
        let new = format!("did:{}:{}", if r.bool() { "x".into() } else { hostile::wide(r, 9) }, hostile::wide(r, n)).replace('#', "");
        let ren = |x: &mut String| {
            if *x == old {
                *x = new.clone();
            } else if let Some(t) = x.strip_prefix(&format!("{old}#")) {
                *x = format!("{new}#{t}");
            }
        };
        for q in s.parties.iter_mut().filter(|q| q.did == old) {
            q.did = new.clone();
            q.ka.iter_mut().chain(q.auth.iter_mut()).chain(q.extra.iter_mut()).for_each(|k| ren(&mut k.kid));
        }
        ren(&mut s.to);
        s.held.iter_mut().for_each(ren);
        s.from.iter_mut().chain(s.sign_by.iter_mut()).chain(s.msg.from.iter_mut()).for_each(ren);
        s.msg.to.iter_mut().flatten().for_each(ren);
    }
    if s.msg.from_prior.is_some() {
        let (t, c, k) = from_prior_token(r, &s.parties[3].clone(), &s.parties[0].did.clone());
        s.msg.from_prior = Some(t);
        s.from_prior_claims = Some((c, k));
    }
}

fn scn9(r: &mut Rng) -> Scn {
    let mut s = scn(r, &Knobs { small: true, dual: true, to_self: 20, ..Default::default() });
    if r.chance(1, 3) {
        rename(r, &mut s);
    }
    s
}

fn unpack_case(r: &mut Rng, obs: &mut Obs) {
    let s = scn9(r);
    for _ in 0..6 {
        let (t, what) = envelope(&s, r);
        let (dr, sr) = resolvers(&s, r, true);
        let o = opts(r.bool(), r.bool());
        let res = world::run(Message::unpack(&t, &dr, &sr, &o));
        let got = judge(obs, &format!("unpack: {what}"), res, || json!({"message": t, "options": format!("{o:?}")}));
        if let Some((m, _)) = got {
            let f = guard(|| {
                let a = try_parse_forward(&m).is_some();
                let b = serde_json::to_string(&m).is_ok();
                Ok::<_, String>((a, b))
            });
            judge(obs, "using the unpacked message", f, || json!(t));
        }
    }
}

fn weird_message(s: &Scn, r: &mut Rng) -> Message {
    let k = known(s);
    let mut m = s.msg.clone();
    for _ in 0..r.below(3) {
        match r.below(7) {
            0 => m.from = Some(hostile::id(r, &k)),
            1 => m.to = Some((0..r.below(3)).map(|_| hostile::id(r, &k)).collect()),
            2 => m.from_prior = Some(if r.bool() { gen::text(r) } else { hostile::text(&from_prior_token(r, &s.parties[3], &s.parties[0].did).0, r) }),
            3 => m.body = hostile::value(r),
            4 => m.typ = gen::text(r),
            5 => {
                let n = if r.bool() { (*r.pick(gen::RESERVED)).to_string() } else { gen::text(r) };
                let v = hostile::value(r);
                m.extra_headers.insert(n, v);
            }
            _ => m.attachments = Some(vec![Attachment::json(hostile::value(r)).finalize()]),
        }
    }
    m
}

fn pack_case(r: &mut Rng, obs: &mut Obs) {
    let s = scn9(r);
    let k = known(&s);
    for _ in 0..4 {
        let m = weird_message(&s, r);
        let arg = |r: &mut Rng, d: &str| if r.chance(1, 5) { hostile::id(r, &k) } else { d.to_string() };
        let to = arg(r, &s.to);
        let from = if r.bool() { Some(arg(r, s.from.as_deref().unwrap_or(&s.parties[0].did))) } else { None };
        let by = if r.bool() { Some(arg(r, s.sign_by.as_deref().unwrap_or(&s.parties[0].did))) } else { None };
        let mut o: PackEncryptedOptions = s.opts.clone();
        if r.chance(1, 4) {
            o.messaging_service = Some(hostile::id(r, &k));
        }
        if r.chance(1, 4) {
            o.forward_headers = Some((0..r.below(4)).map(|_| (if r.bool() { (*r.pick(gen::RESERVED)).to_string() } else { gen::text(r) }, hostile::value(r))).collect());
        }
        let (dr, sr) = resolvers(&s, r, true);
        let w = || json!({"message": gmsg::message_json(&m), "to": to, "from": from, "sign_by": by, "options": format!("{o:?}"), "docs": dr.dr.docs.values().collect::<Vec<_>>()});
        match r.below(6) {
            0 => {
                judge(obs, "pack_plaintext", world::run(m.pack_plaintext(&dr)), w);
            }
            1 => {
                judge(obs, "pack_signed", world::run(m.pack_signed(by.as_deref().unwrap_or(&to), &dr, &sr)), w);
            }
            2 => {
                let keys: Vec<String> = (0..r.below(4)).map(|_| hostile::id(r, &k)).collect();
                let inner = if r.bool() { hostile::value(r).to_string() } else { gen::text(r) };
                let h = o.forward_headers.clone();
                judge(obs, "wrap_in_forward", world::run(wrap_in_forward(&inner, h.as_ref(), &to, &keys, &o.enc_alg_anon, &dr)), w);
            }
            3 => {
                let fp = FromPrior {
                    iss: arg(r, &s.parties[3].did),
                    sub: arg(r, &s.parties[0].did),
                    aud: Some(gen::text(r)),
                    exp: Some(gen::u64v(r)),
                    nbf: None,
                    iat: Some(gen::u64v(r)),
                    jti: None,
                };
                let kid = if r.bool() { Some(arg(r, &s.parties[3].auth[0].kid)) } else { None };
                if let Some((t, _)) = judge(obs, "FromPrior::pack", world::run(fp.pack(kid.as_deref(), &dr, &sr)), w) {
                    let t = if r.bool() { hostile::text(&t, r) } else { t };
                    judge(obs, "FromPrior::unpack", world::run(FromPrior::unpack(&t, &dr)), || json!(t));
                }
            }
            _ => {
                let res = world::run(m.pack_encrypted(&to, from.as_deref(), by.as_deref(), &dr, &sr, &o));
                judge(obs, "pack_encrypted", res, w);
            }
        }
    }
    one_odd(&s, r, obs);
}

/// Everything in order, but one name.
fn one_odd(s: &Scn, r: &mut Rng, obs: &mut Obs) {
    let mut s = s.clone();
    let k = known(&s);
    if r.bool() {
        s.opts.forward = true;
    }
    let base = match r.below(4) {
        0 => format!("{}#", s.parties[1].did),
        1 => "did:x:".to_string(),
        2 => "".to_string(),
        _ => r.pick(&k).clone(),
    };
    let n = *r.pick(&[8, 70, 150, 300]);
    let odd = if r.chance(1, 4) { hostile::id(r, &k) } else { base + &hostile::wide(r, n) };
    let what = r.below(10);
    match what {
        9 => {
            // endpoints that lead to one of the parties, the same one again included
            let dids: Vec<String> = s.parties.iter().map(|p| p.did.clone()).collect();
            s.opts.forward = true;
            let some = s.parties.iter().flat_map(|p| p.services.iter()).next().cloned();
            for p in s.parties.iter_mut() {
                if p.services.is_empty() {
                    p.services.extend(some.clone());
                }
                for v in p.services.iter_mut() {
                    if let ServiceKind::DIDCommMessaging { value } = &mut v.service_endpoint {
                        if r.chance(3, 4) {
                            value.uri = r.pick(&dids).clone();
                        }
                    }
                }
            }
        }
        0 => s.opts.messaging_service = Some(odd),
        1 => s.to = odd,
        2 if s.from.is_some() => s.from = Some(odd),
        3 if s.sign_by.is_some() => s.sign_by = Some(odd),
        4 => s.msg.from_prior = Some(odd),
        5 => s.msg.from = Some(odd),
        6 => s.msg.to.get_or_insert_with(Vec::new).push(odd),
        _ => {
            for v in s.parties.iter_mut().flat_map(|p| p.services.iter_mut()) {
                if let ServiceKind::DIDCommMessaging { value } = &mut v.service_endpoint {
                    match what {
                        7 => value.routing_keys.push(odd.clone()),
                        _ => value.uri = odd.clone(),
                    }
                }
            }
        }
    }
    judge(obs, "pack with one odd name", s.pack(), || json!({"scenario": s.brief(), "options": format!("{:?}", s.opts), "docs": s.dr().docs.values().collect::<Vec<_>>()}));
}

fn token_case(r: &mut Rng, obs: &mut Obs) {
    let s = scn(r, &Knobs { small: true, mode: Some(Mode::Plain), ..Default::default() });
    let (dr, _) = resolvers(&s, r, true);
    for _ in 0..4 {
        let (t, _, _) = from_prior_token(r, &s.parties[3], &s.parties[0].did);
        let p: Vec<&str> = t.split('.').collect();
        let t = match r.below(5) {
            0 => hostile::text(&t, r),
            1 => format!("{}.{}.{}", hostile::string(p[0], r), p[1], p[2]),
            2 => format!("{}.{}.{}", p[0], hostile::string(p[1], r), p[2]),
            3 => format!("{}.{}.{}", p[0], p[1], hostile::string(p[2], r)),
            _ => {
                let n = r.below(6);
                (0..n).map(|_| hostile::string(r.pick(&p), r)).collect::<Vec<_>>().join(".")
            }
        };
        judge(obs, "FromPrior::unpack", world::run(FromPrior::unpack(&t, &dr)), || json!(t));
    }
}

fn json_case(r: &mut Rng, obs: &mut Obs) {
    let d = hostile::gdoc::doc(r);
    let s = hostile::gdoc::secret(r);
    let m = gmsg::message(r);
    let list: [(&str, Value); 5] = [
        ("DIDDoc", serde_json::to_value(&d).unwrap_or_default()),
        ("Secret", serde_json::to_value(&s).unwrap_or_default()),
        ("Message", gmsg::message_json(&m)),
        ("PackEncryptedOptions", json!({"protect_sender": true, "forward": false, "forward_headers": {"a": 1}, "messaging_service": "x", "enc_alg_anon": "Xc20pEcdhEsA256kw"})),
        ("UnpackOptions", json!({"expect_decrypt_by_all_keys": true, "unwrap_re_wrapping_forward": false})),
    ];
    for (n, mut v) in list {
        for _ in 0..r.range(1, 3) {
            hostile::mutate(&mut v, r);
        }
        let t = if r.chance(1, 4) { hostile::text(&v.to_string(), r) } else { v.to_string() };
        let res = guard(|| match n {
            "DIDDoc" => serde_json::from_str::<DIDDoc>(&t).map(|x| format!("{x:?}")),
            "Secret" => serde_json::from_str::<Secret>(&t).map(|x| x.id),
            "Message" => serde_json::from_str::<Message>(&t).map(|x| format!("{x:?}{}", try_parse_forward(&x).is_some())),
            "PackEncryptedOptions" => serde_json::from_str::<PackEncryptedOptions>(&t).map(|x| format!("{x:?}")),
            _ => serde_json::from_str::<UnpackOptions>(&t).map(|x| format!("{x:?}")),
        });
        judge(obs, &format!("reading {n}"), res, || json!(t));
    }
}

/// Sizes far from ordinary.
fn big_case(i: u64, r: &mut Rng, obs: &mut Obs) {
    let mut s = scn(r, &Knobs { small: true, mode: Some(if i % 2 == 0 { Mode::Anon } else { Mode::Auth }), routed: Some(false), ..Default::default() });
    match i % 6 {
        0 => s.msg.body = json!({"a": "é".repeat(200_000)}),
        1 => s.msg.attachments = Some((0..2000).map(|_| Attachment::base64("QUJD".into()).finalize()).collect()),
        2 => {
            let mut v = json!(1);
            for _ in 0..(100 + r.below(60)) {
                v = json!([v]);
            }
            s.msg.body = v;
        }
        3 => s.msg.to = Some((0..3000).map(|n| format!("did:example:{n}")).chain([s.parties[1].did.clone()]).collect()),
        4 if i % 24 == 4 => s.msg.body = json!({"a": "0123456789abcdef".repeat(r.range(70_000, 280_000))}),
        4 => s.msg.body = json!({}),
        _ => s.msg.extra_headers = (0..2000).map(|n| (format!("h{n}"), json!(n))).collect(),
    }
    let got = judge(obs, "big: pack", s.pack(), || json!(format!("kind {}", i % 6)));
    if let Some(p) = got {
        let res = unpack(&p.text, &s.dr(), &Sr::party(&s.parties[1]), &opts(true, true));
        judge(obs, "big: unpack", res, || json!(format!("kind {}", i % 6)));
    }
    // text of deep nesting, many members and long strings given straight to unpack
    let n = *r.pick(&[10usize, 1000, 100_000]);
    let t = match r.below(6) {
        0 => "[".repeat(n),
        1 => "{\"a\":".repeat(n),
        2 => format!("{{\"payload\":\"{}\",\"signatures\":[]}}", "A".repeat(n)),
        3 => format!("{{\"protected\":\"{}\",\"recipients\":[],\"iv\":\"\",\"ciphertext\":\"\",\"tag\":\"\"}}", b64("[".repeat(n).as_bytes())),
        4 => format!("{{\"id\":\"1\",\"type\":\"t\",\"body\":{}1{}}}", "[".repeat(n), "]".repeat(n)),
        _ => format!("{{\"id\":\"1\",\"type\":\"t\",\"body\":{{}},\"from_prior\":\"{}\"}}", ".".repeat(n)),
    };
    let res = unpack(&t, &s.dr(), &Sr::party(&s.parties[1]), &opts(true, true));
    judge(obs, "big: hostile text", res, || json!(vcommon::cut(&t, 200)));
}

pub fn run(run: &mut Runner) {
    run.cpu_hang_is_violation = true;
    run.rule(
        "Every public operation is called with hostile input: damaged envelopes (text, structure, and content behind valid cryptography),
         hostile identifiers, options, headers, documents, key material, secrets, tokens, resolver answers nobody asked for, extreme sizes
         and nestings. A panic (arithmetic overflow included), a crash, an operation that never completes or a case that uses more than
         45 s of CPU time is a violation. Distinct by operation, kind of input and outcome.",
    );
    run.assume("askar-crypto is replaced by a stand-in over OpenSSL; panics inside the real crate cannot be seen.");
    let n = run.cfg.n(2500, 150_000);
    run.cases("unpack", n, |_, r, obs| unpack_case(r, obs));
    let n = run.cfg.n(3000, 150_000);
    run.cases("pack", n, |_, r, obs| pack_case(r, obs));
    let n = run.cfg.n(3000, 150_000);
    run.cases("tokens", n, |_, r, obs| token_case(r, obs));
    let n = run.cfg.n(10_000, 500_000);
    run.cases("json", n, |_, r, obs| json_case(r, obs));
    let n = run.cfg.n(24, 600);
    run.cases("big", n, |i, r, obs| big_case(i, r, obs));
    run.require("succeeded", 1000);
    run.require("refused", 1000);
}
