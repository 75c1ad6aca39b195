//! C11: forwarding against a model of the route.
use crate::{
    c01::must_pack,
    dc::{
        did::{DIDCommMessagingService, Service, ServiceKind},
        error::ErrorKind,
        protocols::routing::{try_parse_forward, wrap_in_forward},
        Attachment, AttachmentData, Base64AttachmentData, JsonAttachmentData, LinksAttachmentData, Message,
    },
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use vcommon::{gen, Obs, Rng, Runner};

pub const FORWARD: &str = "https://didcomm.org/routing/2.0/forward";

/// The keys a layer for `to` may be addressed to: that key, or all the DID's keys of one curve in document order.
fn addressed_ok(p: &Party, to: &str, kids: &[String]) -> bool {
    [Crv::X25519, Crv::P256].iter().any(|c| {
        let v: Vec<&String> = p.ka.iter().filter(|k| k.key.crv == *c && (to == p.did || to == k.kid)).map(|k| &k.kid).collect();
        !v.is_empty() && v == kids.iter().collect::<Vec<_>>()
    })
}

/// One forward message as the mediator sees it.
fn forward_ok(f: &Value, next: &str, headers: Option<&HashMap<String, Value>>) -> Result<(), String> {
    let o = f.as_object().ok_or("not an object")?;
    if o.get("type") != Some(&json!(FORWARD)) {
        return Err(format!("type {:?}", o.get("type")));
    }
    if o.get("typ") != Some(&json!(gmsg::PLAIN)) {
        return Err(format!("typ {:?}", o.get("typ")));
    }
    if o.get("id").and_then(|i| i.as_str()).map(|i| i.is_empty()).unwrap_or(true) {
        return Err("no id".into());
    }
    if o.get("body") != Some(&json!({ "next": next })) {
        return Err(format!("body {:?}, next should be {next}", o.get("body")));
    }
    let mut want: Vec<String> = ["id", "typ", "type", "body", "attachments"].iter().map(|s| s.to_string()).collect();
    for (k, v) in headers.into_iter().flatten() {
        if o.get(k) != Some(v) {
            return Err(format!("header {k}: {:?}, asked {v}", o.get(k)));
        }
        want.push(k.clone());
    }
    if let Some(x) = o.keys().find(|k| !want.contains(k)) {
        return Err(format!("member {x} nobody asked for"));
    }
    let a = o.get("attachments").and_then(|a| a.as_array()).ok_or("no attachments")?;
    if a.len() != 1 || a[0].get("data").and_then(|d| d.get("json")).is_none() {
        return Err("the attached message is not the one JSON attachment".into());
    }
    Ok(())
}

fn packed(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
    let routed = if r.chance(2, 3) { Some(true) } else { None };
    let mut s = scn(r, &Knobs { mode, routed, small: true, ..Default::default() });
    if let (true, Some(id)) = (r.chance(1, 8), s.service.as_ref().map(|x| x.0.clone())) {
        // the recipient is one of its own routing keys
        let own = if r.bool() { s.to.clone() } else { s.parties[1].did.clone() };
        for v in s.parties[1].services.iter_mut().filter(|v| v.id == id) {
            if let ServiceKind::DIDCommMessaging { value } = &mut v.service_endpoint {
                if !value.routing_keys.is_empty() {
                    value.routing_keys.push(own.clone());
                    s.route.push(own.clone());
                    obs.count("routed through the recipient itself");
                }
            }
        }
    }
    let p = match must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    obs.eval(&s.shape());
    obs.count(&format!("{} hops", s.route.len()));
    let w = |x: Value| json!({"detail": x, "route": s.route, "services": s.parties[1].services.iter().map(|x| serde_json::to_value(x).unwrap()).collect::<Vec<_>>(), "scenario": s.brief(), "packed": p.text});
    let got = p.service.as_ref().map(|m| (m.id.clone(), m.service_endpoint.clone()));
    if !obs.check(got == s.service, "returned service", || w(json!({"returned": got, "expected": s.service}))) {
        return;
    }
    let x = match s.peel(&p.text, r.below(4)) {
        Ok(x) => x,
        Err(e) => return obs.violation("route not followed", w(json!(e))),
    };
    if !obs.check(!x.inner.is_empty(), "wrapped though not needed, or not encrypted to the recipient", || w(json!(x.inner_text))) {
        return;
    }
    for (i, (o, f)) in x.hops.iter().enumerate() {
        let hop = &s.route[i];
        let next = s.route.get(i + 1).unwrap_or(&s.to);
        obs.check(addressed_ok(s.owner(hop).unwrap(), hop, &o.kids), "layer addressed to other keys than the routing key's", || w(json!({"hop": i, "routing key": hop, "addressed": o.kids})));
        if let Err(e) = forward_ok(f, next, s.opts.forward_headers.as_ref()) {
            obs.violation(format!("forward message: {}", e.split(|c: char| c == ' ' || c == ':').next().unwrap()), w(json!({"hop": i, "why": e, "forward": f})));
        }
        obs.count("forward messages judged");
    }
    obs.check(addressed_ok(&s.parties[1], &s.to, &x.inner[0].kids), "innermost layer not addressed to the recipient", || w(json!(x.inner[0].kids)));
    obs.check(x.plaintext == gmsg::message_json(&s.msg), "forwarded message changed", || w(x.plaintext.clone()));
    // without forwarding nothing is wrapped and no service is named
    if r.chance(1, 3) {
        let mut t = s.clone();
        t.opts.forward = false;
        t.opts.messaging_service = if r.bool() { Some("did:example:no#such".into()) } else { None };
        match t.pack() {
            Ok(Ok(q)) => {
                let ok = q.service.is_none() && parts(&q.text).map(|y| addressed_ok(&s.parties[1], &s.to, &y.1.iter().map(|z| z.0.clone()).collect::<Vec<_>>())).unwrap_or(false);
                obs.count("forwarding disabled");
                obs.check(ok, "wrapped with forwarding disabled", || w(json!(q.text)));
            }
            e => obs.violation("refused with forwarding disabled", w(json!(format!("{:?}", e.map(|x| x.map(|y| y.text)))))),
        }
    }
    obs.sample(|| json!({"route": s.route, "service": s.service, "headers": s.opts.forward_headers.as_ref().map(|h| h.len())}));
}

/// Services that cannot be used.
fn unusable(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
    let mut s = scn(r, &Knobs { mode, routed: Some(false), small: true, ..Default::default() });
    s.msg.from_prior = None;
    s.opts.forward = true;
    s.opts.messaging_service = None;
    let d = s.parties[1].did.clone();
    let m = s.parties[4].clone();
    let key = m.ka[0].kid.clone();
    let plain = |u: &str| service(format!("{d}#s"), u.to_string(), None, vec![key.clone()]);
    let what;
    let mut kind = None;
    match r.below(9) {
        0 => {
            s.parties[1].services = vec![plain("https://a.b")];
            s.opts.messaging_service = Some((*r.pick(&[&format!("{d}#S"), &format!("{d}#s2"), "", "s", "#s", &format!("{d}#")])).to_string());
            what = "asked service does not exist";
            kind = Some(ErrorKind::IllegalArgument);
        }
        1 => {
            let v = json!({"uri": "https://a.b", "accept": ["didcomm/v2"], "routingKeys": [key]});
            s.parties[1].services = vec![Service { id: format!("{d}#o"), service_endpoint: ServiceKind::Other { value: v } }, plain("https://a.b")];
            s.opts.messaging_service = Some(format!("{d}#o"));
            what = "asked service is of another type";
            kind = Some(ErrorKind::IllegalArgument);
        }
        2 => {
            let a = r.pick(&[vec!["didcomm/aip1"], vec!["didcomm/v2;x"], vec!["DIDComm/v2", "didcomm/v"]]).iter().map(|s| s.to_string()).collect();
            let bad = service(format!("{d}#o"), "https://a.b".into(), Some(a), vec![key.clone()]);
            s.parties[1].services = vec![bad, plain("https://a.b")];
            s.opts.messaging_service = Some(format!("{d}#o"));
            what = "asked service does not accept didcomm/v2";
            kind = Some(ErrorKind::IllegalArgument);
        }
        3 => {
            s.parties[4].services = vec![service("x#1".into(), s.parties[5].did.clone(), None, vec![])];
            s.parties[5].services = vec![service("y#1".into(), "https://a.b".into(), None, vec![])];
            s.parties[1].services = vec![plain(&m.did)];
            what = "mediator's endpoint is again a DID";
        }
        4 => {
            s.parties[4].services = vec![service("x#1".into(), m.did.clone(), None, vec![])];
            s.parties[1].services = vec![plain(&m.did)];
            what = "mediator's endpoint is itself";
        }
        5 => {
            s.parties[1].services = vec![plain(&d)];
            what = "recipient's endpoint is itself";
        }
        6 => {
            s.parties[4].services = if r.bool() { vec![] } else { vec![service("x#1".into(), "https://a.b".into(), Some(vec!["didcomm/aip1".into()]), vec![])] };
            s.parties[1].services = vec![plain(&m.did)];
            what = "mediator has no suitable service";
        }
        7 => {
            s.parties[1].services = vec![plain(&format!("{}zz", m.did))];
            what = "mediator not resolved";
            kind = Some(ErrorKind::DIDNotResolved);
        }
        _ => {
            let (k, kd) = if r.bool() { (format!("{}#nokey", m.did), ErrorKind::DIDUrlNotFound) } else { (format!("{}zz", m.did), ErrorKind::DIDNotResolved) };
            let mut keys = vec![key.clone(), k];
            r.shuffle(&mut keys);
            s.parties[1].services = vec![service(format!("{d}#s"), "https://a.b".into(), None, keys)];
            what = "routing key not found";
            kind = Some(kd);
        }
    }
    obs.eval(&format!("{what}{}", s.shape()));
    obs.count(what);
    match s.pack() {
        Ok(Ok(p)) => obs.violation(format!("packed though {what}"), json!({"scenario": s.brief(), "service": p.service.map(|x| x.id), "packed": p.text})),
        Ok(Err(e)) => {
            if let Some(k) = kind {
                obs.check(e.kind() == k, "refused as another kind", || json!({"what": what, "kind": format!("{:?}", e.kind()), "expected": format!("{k:?}")}));
            }
        }
        Err(a) => obs.violation("abnormal", json!({"what": what, "how": a.to_string()})),
    }
}

fn direct(r: &mut Rng, obs: &mut Obs) {
    let meds: Vec<Party> = (0..4)
        .map(|_| {
            let c = curves(r);
            party(r, &c)
        })
        .collect();
    let n = r.below(6);
    let keys: Vec<String> = (0..n)
        .map(|_| {
            let m = r.pick(&meds).clone();
            if r.bool() {
                m.did
            } else {
                r.pick(&m.ka).kid.clone()
            }
        })
        .collect();
    let headers: Option<HashMap<String, Value>> = if r.bool() { Some((0..r.below(4)).map(|_| (gen::header_name(r), gen::json(r, 2))).collect()) } else { None };
    let good = r.chance(5, 6);
    let v = if r.chance(1, 5) { gen::json(r, 3) } else { gen::obj(r, 3) };
    let text = if good { gen::restyle(&v, r, true) } else { (*r.pick(&["", "{", "{\"a\":1}x", "nul", "{'a':1}", "\u{feff}{}"])).to_string() };
    let to = match r.below(3) {
        0 => gen::text(r),
        1 => r.pick(&meds).did.clone(),
        _ => format!("did:example:{}#k", gen::word(r, 4)),
    };
    let alg = r.pick(&ANON).clone();
    let dr = Dr::new(&meds);
    obs.eval(&format!("{n}{good}{}{}", headers.as_ref().map(|h| h.len() + 1).unwrap_or(0), anon_enc(&alg)));
    let w = |x: Value| json!({"detail": x, "message": text, "routing_keys": keys, "to": to, "headers": headers.as_ref().map(crate::scn::headers)});
    match crate::world::run(wrap_in_forward(&text, headers.as_ref(), &to, &keys, &alg, &dr)) {
        Ok(Ok(out)) => {
            obs.count(&format!("wrapped {n} times"));
            if !good && n > 0 {
                return obs.violation("wrapped what is not JSON", w(json!(out)));
            }
            if n == 0 {
                obs.check(out == text, "changed without routing keys", || w(json!(out)));
                return;
            }
            let mut t = out;
            for (i, k) in keys.iter().enumerate() {
                let did = k.split('#').next().unwrap();
                let m = meds.iter().find(|m| m.did == did).unwrap();
                let kids: Vec<String> = match parts(&t) {
                    Ok(x) => x.1.into_iter().map(|x| x.0).collect(),
                    Err(e) => return obs.violation("layer not readable", w(json!(e))),
                };
                if !obs.check(addressed_ok(m, k, &kids), "layer addressed to other keys than the routing key's", || w(json!({"layer": i, "addressed": kids}))) {
                    return;
                }
                let kid = r.pick(&kids).clone();
                let o = match open(&t, &kid, &m.key(&kid).unwrap().key, &|_| None) {
                    Ok(o) => o,
                    Err(e) => return obs.violation("layer does not open", w(json!({"layer": i, "why": e}))),
                };
                obs.check(o.enc == anon_enc(&alg), "content algorithm", || w(json!({"layer": i, "enc": o.enc})));
                let f: Value = serde_json::from_slice(&o.plaintext).unwrap_or_default();
                if let Err(e) = forward_ok(&f, keys.get(i + 1).unwrap_or(&to), headers.as_ref()) {
                    return obs.violation(format!("forward message: {}", e.split(|c: char| c == ' ' || c == ':').next().unwrap()), w(json!({"layer": i, "why": e, "forward": f})));
                }
                let inner = f["attachments"][0]["data"]["json"].clone();
                if i + 1 == keys.len() {
                    obs.check(inner == v, "wrapped message changed", || w(json!({"inside": inner, "given": v})));
                }
                t = inner.to_string();
            }
        }
        Ok(Err(e)) => {
            if good || n == 0 {
                obs.violation("refused to wrap", w(json!(format!("{e:?}"))));
            } else {
                obs.count("not JSON: refused");
                obs.check(e.kind() == ErrorKind::Malformed, "refused as another kind", || w(json!(format!("{:?}", e.kind()))));
            }
        }
        Err(a) => obs.violation("abnormal", w(json!(a.to_string()))),
    }
}

pub fn near_forward(r: &mut Rng, next: &str, inner: &Value) -> Message {
    let mut m = gmsg::message(r);
    m.type_ = FORWARD.into();
    m.body = json!({ "next": next });
    if r.chance(1, 3) {
        m.to = Some((0..r.below(3)).map(|_| did(r)).collect());
    }
    let j = AttachmentData::Json { value: JsonAttachmentData { json: inner.clone(), jws: if r.bool() { Some(gen::text(r)) } else { None } } };
    let mut a = gmsg::attachment(r, 1);
    a.data = j;
    let mut v = vec![a];
    for _ in 0..r.below(3) {
        v.push(gmsg::attachment(r, 1));
    }
    m.attachments = Some(v);
    if r.bool() {
        m.body["x"] = gen::json(r, 1);
    }
    m
}

fn recognition(r: &mut Rng, obs: &mut Obs) {
    let inner = gen::json(r, 3);
    let next = if r.bool() { gen::text(r) } else { did(r) };
    let mut m = near_forward(r, &next, &inner);
    let mut ok = true;
    let mut what = "forward";
    match r.below(12) {
        0 => {
            m.type_ = (*r.pick(&["https://didcomm.org/routing/2.0/forward/", "https://didcomm.org/routing/2.0/Forward", "https://didcomm.org/routing/2.0", "http://didcomm.org/routing/2.0/forward", "https://didcomm.org/routing/1.0/forward", "https://didcomm.org/routing/2.0/forwarded", " https://didcomm.org/routing/2.0/forward", "forward", ""])).to_string();
            ok = false;
            what = "another type";
        }
        1 => {
            m.body = json!({ "next": gen::json(r, 1) });
            ok = m.body["next"].is_string();
            what = "next of another kind";
        }
        2 => {
            m.body = (*r.pick(&[&json!({}), &json!({"Next": "a"}), &json!({"to": "did:a:b"}), &json!([]), &json!("next"), &json!(null), &json!([{"next": "a"}]), &json!({"body": {"next": "a"}})])).clone();
            ok = false;
            what = "no next";
        }
        3 => {
            m.attachments = if r.bool() { None } else { Some(vec![]) };
            ok = false;
            what = "no attachment";
        }
        4 => {
            let v = m.attachments.as_mut().unwrap();
            let mut a = gmsg::attachment(r, 1);
            a.data = if r.bool() { AttachmentData::Base64 { value: Base64AttachmentData { base64: "e30".into(), jws: None } } } else { AttachmentData::Links { value: LinksAttachmentData { links: vec![], hash: "".into(), jws: None } } };
            v.insert(0, a);
            ok = false;
            what = "first attachment is not JSON";
        }
        5 => {
            m.typ = gen::text(r);
            what = "other typ";
        }
        _ => {}
    }
    let expected = if ok { m.body["next"].as_str().map(|n| (n.to_string(), gmsg::attachment_json(&m.attachments.as_ref().unwrap()[0])["data"]["json"].clone())) } else { None };
    obs.eval(&format!("{what}{}", gmsg::shape(&m)));
    obs.count(what);
    match vcommon::guard(|| try_parse_forward(&m).map(|f| (f.next.clone(), f.forwarded_msg.clone(), std::ptr::eq(f.msg, &m)))) {
        Ok(got) => {
            let same = got.as_ref().map(|g| (g.0.clone(), g.1.clone())) == expected && got.as_ref().map(|g| g.2).unwrap_or(true);
            obs.check(same, "recognition", || json!({"message": gmsg::message_json(&m), "got": format!("{got:?}"), "expected": format!("{expected:?}"), "what": what}));
        }
        Err(a) => obs.violation("abnormal", json!(a.to_string())),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Recipients with random service lists (other types, unaccepted profiles, chosen ids, routing keys as DIDs or key ids, DID endpoints)
         get packed messages whose layers are opened one by one by an independent implementation and compared with a model of the route:
         addressed keys, type, next, headers, attachment, algorithm, returned service. wrap_in_forward is driven directly with any JSON
         and 0..5 routing keys, unusable services must be refused, and recognition of forwards is compared with a model on near misses.
         Distinct by scenario shape, defect, and message structure.",
    );
    run.assume("Extra headers have names of their own. askar-crypto is replaced by a stand-in over OpenSSL.");
    let n = run.cfg.n(3000, 100_000);
    run.cases("packed", n, |_, r, obs| packed(r, obs));
    let n = run.cfg.n(2000, 50_000);
    run.cases("unusable", n, |_, r, obs| unusable(r, obs));
    let n = run.cfg.n(2000, 60_000);
    run.cases("direct", n, |_, r, obs| direct(r, obs));
    let n = run.cfg.n(20_000, 1_000_000);
    run.cases("recognition", n, |_, r, obs| recognition(r, obs));
    run.require("forward messages judged", 1000);
    run.require("forwarding disabled", 100);
}
