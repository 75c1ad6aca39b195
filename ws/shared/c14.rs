//! C14: messages and attachments keep their meaning as JSON.
use crate::{
    dc::{Attachment, AttachmentData, Message},
    gmsg::{self, attachment_json, data_json, message_json},
};
use serde_json::{json, Value};
use vcommon::{cut, gen, guard, jsonutil::no_duplicates, Obs, Rng, Runner};

fn full_message(r: &mut Rng) -> Message {
    let mut m = gmsg::message(r);
    if r.bool() {
        m.from = Some(gen::text(r));
    }
    if r.bool() {
        let n = gen::count(r, 4);
        m.to = Some((0..n).map(|_| gen::text(r)).collect());
    }
    if r.bool() {
        m.from_prior = Some(gen::text(r));
    }
    if r.chance(1, 8) {
        m.typ = gen::text(r);
    }
    m
}

pub fn run(run: &mut Runner) {
    run.rule(
        "C14: random Message/Attachment values (struct literals and random builder call sequences) are serialised and compared with an independently
         written JSON form, re-read from plain and restyled text (member order, white space, \\u escapes); random JSON near the format (members removed,
         retyped, added, renamed) is read and the verdict compared with the documented requirements. Distinct = distinct field-presence shape or distinct mutation class.",
    );
    let n = run.cfg.n(20_000, 400_000);
    run.cases("roundtrip", n, |_, r, o| {
        let m = full_message(r);
        let exp = message_json(&m);
        let w = |what: &str, extra: Value| json!({"what": what, "expected": exp, "got": extra});
        match guard(|| serde_json::to_string(&m)) {
            Ok(Ok(s)) => {
                o.eval(&format!("rt{}", gmsg::shape(&m)));
                o.sample(|| json!({"message": cut(&s, 400)}));
                o.check(no_duplicates(&s) == Ok(true), "serialise-duplicate", || w("duplicate members", json!(s)));
                match serde_json::from_str::<Value>(&s) {
                    Ok(v) => {
                        o.check(v == exp, "serialise", || w("JSON form differs", v.clone()));
                    }
                    Err(e) => o.violation("serialise-not-json", w(&e.to_string(), json!(s))),
                }
                for (k, text) in [("plain", s.clone()), ("restyled", gen::restyle(&exp, r, true))] {
                    match guard(|| serde_json::from_str::<Message>(&text)) {
                        Ok(Ok(b)) => {
                            o.eval(&format!("re{k}{}", gmsg::shape(&m)));
                            o.check(gmsg::same(&m, &b) && m == b, "reread-differs", || w("value re-read from JSON differs", message_json(&b)));
                        }
                        Ok(Err(e)) => o.violation("reread-refused", json!({"text": text, "error": e.to_string()})),
                        Err(p) => o.violation("panic", json!({"text": text, "panic": p.to_string()})),
                    }
                }
            }
            Ok(Err(e)) => o.violation("serialise-error", w(&e.to_string(), Value::Null)),
            Err(p) => o.violation("panic", w(&p.to_string(), Value::Null)),
        }
    });

    run.cases("builder", n, |_, r, o| builder(r, o));
    run.cases("attachment", n, |_, r, o| attachment(r, o));
    run.cases("accept", n * 2, |_, r, o| accept(r, o));
    run.require("refused near-miss", 200);
    run.require("accepted with unknown members", 200);
}

fn builder(r: &mut Rng, o: &mut Obs) {
    let (id, ty, body) = (gen::text(r), gen::text(r), gen::json(r, 2));
    let mut model = Message {
        id: id.clone(),
        typ: gmsg::PLAIN.into(),
        type_: ty.clone(),
        body: body.clone(),
        from: None,
        to: None,
        thid: None,
        pthid: None,
        extra_headers: Default::default(),
        created_time: None,
        expires_time: None,
        from_prior: None,
        attachments: None,
    };
    let mut b = Message::build(id, ty, body);
    let mut trace = vec![];
    for _ in 0..r.below(12) {
        let k = r.below(12);
        trace.push(k);
        b = match k {
            0 => {
                let v = gen::text(r);
                model.to.get_or_insert_with(Vec::new).push(v.clone());
                b.to(v)
            }
            1 => {
                let n = gen::count(r, 4);
                let v: Vec<String> = (0..n).map(|_| gen::text(r)).collect();
                model.to.get_or_insert_with(Vec::new).extend(v.clone());
                b.to_many(v)
            }
            2 => {
                let v = gen::text(r);
                model.from = Some(v.clone());
                b.from(v)
            }
            3 => {
                let v = gen::text(r);
                model.thid = Some(v.clone());
                b.thid(v)
            }
            4 => {
                let v = gen::text(r);
                model.pthid = Some(v.clone());
                b.pthid(v)
            }
            5 | 6 => {
                let k = if !model.extra_headers.is_empty() && r.bool() {
                    let mut ks: Vec<_> = model.extra_headers.keys().cloned().collect();
                    ks.sort();
                    r.pick(&ks).clone()
                } else {
                    gen::header_name(r)
                };
                let v = gen::json(r, 2);
                model.extra_headers.insert(k.clone(), v.clone());
                b.header(k, v)
            }
            7 => {
                let v = gen::u64v(r);
                model.created_time = Some(v);
                b.created_time(v)
            }
            8 => {
                let v = gen::u64v(r);
                model.expires_time = Some(v);
                b.expires_time(v)
            }
            9 => {
                let v = gen::text(r);
                model.from_prior = Some(v.clone());
                b.from_prior(v)
            }
            10 => {
                let v = gmsg::attachment(r, 1);
                model.attachments.get_or_insert_with(Vec::new).push(v.clone());
                b.attachment(v)
            }
            _ => {
                let n = gen::count(r, 3);
                let v: Vec<_> = (0..n).map(|_| gmsg::attachment(r, 1)).collect();
                model.attachments.get_or_insert_with(Vec::new).extend(v.clone());
                b.attachments(v)
            }
        };
    }
    match guard(move || b.finalize()) {
        Ok(m) => {
            o.eval(&format!("b{trace:?}"));
            o.check(gmsg::same(&m, &model), "builder", || json!({"calls": trace, "expected": message_json(&model), "got": message_json(&m)}));
        }
        Err(p) => o.violation("panic", json!({"calls": trace, "panic": p.to_string()})),
    }
}

fn attachment(r: &mut Rng, o: &mut Obs) {
    let (mut b, mut model) = match r.below(3) {
        0 => {
            let v = gen::text(r);
            (Attachment::base64(v.clone()), json!({"data": {"base64": v}}))
        }
        1 => {
            let v = gen::json(r, 3);
            (Attachment::json(v.clone()), json!({"data": {"json": v}}))
        }
        _ => {
            let n = gen::count(r, 4);
            let v: Vec<String> = (0..n).map(|_| gen::text(r)).collect();
            let h = gen::text(r);
            (Attachment::links(v.clone(), h.clone()), json!({"data": {"links": v, "hash": h}}))
        }
    };
    let mut trace = vec![];
    for _ in 0..r.below(10) {
        let k = r.below(8);
        trace.push(k);
        let t = gen::text(r);
        let u = gen::u64v(r);
        b = match k {
            0 => {
                model["id"] = json!(t);
                b.id(t)
            }
            1 => {
                model["description"] = json!(t);
                b.description(t)
            }
            2 => {
                model["filename"] = json!(t);
                b.filename(t)
            }
            3 => {
                model["media_type"] = json!(t);
                b.media_type(t)
            }
            4 => {
                model["format"] = json!(t);
                b.format(t)
            }
            5 => {
                model["lastmod_time"] = json!(u);
                b.lastmod_time(u)
            }
            6 => {
                model["byte_count"] = json!(u);
                b.byte_count(u)
            }
            _ => {
                model["data"]["jws"] = json!(t);
                b.jws(t)
            }
        };
    }
    match guard(move || {
        let a = b.finalize();
        let s = serde_json::to_string(&a).map_err(|e| e.to_string())?;
        let b: Attachment = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        Ok::<_, String>((a, s, b))
    }) {
        Ok(Ok((a, s, back))) => {
            o.eval(&format!("a{}{trace:?}", model["data"].as_object().unwrap().keys().next().unwrap()));
            o.check(attachment_json(&a) == model, "attachment-builder", || json!({"calls": trace, "expected": model, "got": attachment_json(&a)}));
            o.check(serde_json::from_str::<Value>(&s).ok().as_ref() == Some(&model), "attachment-json", || json!({"expected": model, "got": s}));
            o.check(attachment_json(&back) == model && std::mem::discriminant(&back.data) == std::mem::discriminant(&a.data), "attachment-reread", || json!({"expected": model, "got": attachment_json(&back)}));
        }
        Ok(Err(e)) => o.violation("attachment-error", json!({"model": model, "error": e})),
        Err(p) => o.violation("panic", json!({"model": model, "panic": p.to_string()})),
    }
}

/// A value of a JSON type other than those in `not`.
fn wrong(r: &mut Rng, not: &[&str]) -> Value {
    loop {
        let (t, v) = match r.below(8) {
            0 => ("bool", json!(r.bool())),
            1 => ("u64", json!(gen::u64v(r))),
            2 => ("neg", json!(-1 - (r.below(100) as i64))),
            3 => ("float", json!(1.5)),
            4 => ("string", json!(gen::text(r))),
            5 => ("array", json!([1, {}])),
            6 => ("object", json!({"a": {"b": 1}})),
            _ => ("strings", json!(["a"])),
        };
        if !not.contains(&t) && !(t == "strings" && not.contains(&"array")) {
            return v;
        }
    }
}

fn accept(r: &mut Rng, o: &mut Obs) {
    let m = full_message(r);
    let mut v = message_json(&m);
    let ob = v.as_object_mut().unwrap();
    // (mutation label, expectation)
    let (label, exp): (String, Result<Value, ()>) = match r.below(7) {
        0 => {
            let k = *r.pick(&["id", "type", "body"]);
            ob.remove(k);
            (format!("missing {k}"), Err(()))
        }
        1 => {
            let k = *r.pick(&["id", "typ", "type"]);
            let x = wrong(r, &["string"]);
            ob.insert(k.into(), x);
            (format!("retyped {k}"), Err(()))
        }
        2 => {
            let (k, not): (&str, &[&str]) = *r.pick(&[
                ("from", &["string"][..]),
                ("thid", &["string"]),
                ("pthid", &["string"]),
                ("from_prior", &["string"]),
                ("created_time", &["u64"]),
                ("expires_time", &["u64"]),
                ("to", &["strings", "array"]),
            ]);
            let x = if k == "to" && r.bool() { json!(["x", 5]) } else { wrong(r, not) };
            ob.insert(k.into(), x);
            (format!("retyped {k}"), Err(()))
        }
        3 => {
            ob.remove("typ");
            let mut e = Value::Object(ob.clone());
            e["typ"] = json!(gmsg::PLAIN);
            ("missing typ".into(), Ok(e))
        }
        4 | 5 => {
            // unknown members at top level are kept, inside attachments they are ignored
            let mut top = 0;
            for _ in 0..r.range(1, 3) {
                let k = gen::header_name(r);
                ob.insert(k, gen::json(r, 2));
                top += 1;
            }
            let e = Value::Object(ob.clone());
            let mut ins = false;
            if let Some(a) = ob.get_mut("attachments").and_then(|a| a.as_array_mut()).and_then(|a| a.first_mut()) {
                a["x-unknown"] = gen::json(r, 1);
                a["data"]["x-unknown"] = gen::json(r, 1);
                ins = true;
            }
            (format!("unknown {top} {ins}"), Ok(e))
        }
        _ => {
            let mut a = attachment_json(&gmsg::attachment(r, 1));
            let l = match r.below(6) {
                0 => {
                    a.as_object_mut().unwrap().remove("data");
                    "no data"
                }
                1 => {
                    a["data"] = json!({"jws": "x"});
                    "empty data"
                }
                2 => {
                    a["data"] = json!({"links": ["a"]});
                    "links without hash"
                }
                3 => {
                    a["data"] = wrong(r, &["object"]);
                    "retyped data"
                }
                4 => {
                    let x = wrong(r, &["string"]);
                    let k = *r.pick(&["id", "description", "filename", "media_type", "format"]);
                    a[k] = x;
                    "retyped string member"
                }
                _ => {
                    let x = wrong(r, &["u64"]);
                    let k = *r.pick(&["lastmod_time", "byte_count"]);
                    a[k] = x;
                    "retyped number member"
                }
            };
            let good = attachment_json(&gmsg::attachment(r, 1));
            let list = if r.bool() { json!([a]) } else { json!([good, a]) };
            ob.insert("attachments".into(), list);
            (format!("attachment {l}"), Err(()))
        }
    };
    let text = gen::restyle(&v, r, true);
    match guard(|| serde_json::from_str::<Message>(&text)) {
        Ok(Ok(b)) => {
            o.eval(&label);
            match exp {
                Ok(e) => {
                    o.count(if label.starts_with("unknown") { "accepted with unknown members" } else { "accepted without typ" });
                    let mut got = message_json(&b);
                    // unknown members inside attachments may or may not be kept
                    for g in got.get_mut("attachments").and_then(|a| a.as_array_mut()).into_iter().flatten() {
                        g.as_object_mut().unwrap().remove("x-unknown");
                    }
                    o.check(got == e, "accept-differs", || json!({"mutation": label, "text": text, "expected": e, "got": got}));
                }
                Err(()) => o.violation(format!("accepted: {label}"), json!({"text": text, "read as": message_json(&b)})),
            }
        }
        Ok(Err(e)) => {
            o.eval(&label);
            match exp {
                Err(()) => o.count("refused near-miss"),
                Ok(_) => o.violation(format!("refused: {}", label.split(' ').next().unwrap()), json!({"text": text, "error": e.to_string()})),
            }
        }
        Err(p) => o.violation("panic", json!({"text": text, "panic": p.to_string()})),
    }
    // attachment data kinds are told apart by their members
    if let Some(a) = m.attachments.iter().flatten().next() {
        let t = gen::restyle(&data_json(&a.data), r, true);
        if let Ok(Ok(d)) = guard(|| serde_json::from_str::<AttachmentData>(&t)) {
            o.eval("");
            o.check(data_json(&d) == data_json(&a.data), "attachment-data-kind", || json!({"text": t, "got": data_json(&d)}));
        } else {
            o.violation("attachment-data-refused", json!({"text": t}));
        }
    }
}
