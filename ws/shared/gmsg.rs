//! Random messages and attachments, and an independent statement of their JSON form.
use crate::dc::{Attachment, AttachmentData, Base64AttachmentData, JsonAttachmentData, LinksAttachmentData, Message};
use serde_json::{json, Map, Value};
use vcommon::{gen, Rng};

pub const PLAIN: &str = "application/didcomm-plain+json";

fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.bool() {
        Some(f(r))
    } else {
        None
    }
}

pub fn attachment_data(r: &mut Rng, depth: usize) -> AttachmentData {
    match r.below(3) {
        0 => AttachmentData::Base64 { value: Base64AttachmentData { base64: gen::text(r), jws: opt(r, gen::text) } },
        1 => AttachmentData::Json { value: JsonAttachmentData { json: gen::json(r, depth), jws: opt(r, gen::text) } },
        _ => {
            let n = gen::count(r, 4);
            AttachmentData::Links {
                value: LinksAttachmentData { links: (0..n).map(|_| gen::text(r)).collect(), hash: gen::text(r), jws: opt(r, gen::text) },
            }
        }
    }
}

pub fn attachment(r: &mut Rng, depth: usize) -> Attachment {
    Attachment {
        data: attachment_data(r, depth),
        id: opt(r, gen::text),
        description: opt(r, gen::text),
        filename: opt(r, gen::text),
        media_type: opt(r, gen::text),
        format: opt(r, gen::text),
        lastmod_time: opt(r, gen::u64v),
        byte_count: opt(r, gen::u64v),
    }
}

/// A message without from, to and from_prior (the caller sets them as its scenario needs).
pub fn message(r: &mut Rng) -> Message {
    let depth = r.below(4);
    let nh = if r.bool() { 0 } else { gen::count(r, 5) };
    Message {
        id: gen::text(r),
        typ: PLAIN.into(),
        type_: if r.chance(1, 3) { gen::text(r) } else { format!("https://example.org/{}/1.0/{}", gen::word(r, 4), gen::word(r, 4)) },
        body: if r.chance(2, 3) { gen::obj(r, depth) } else { gen::json(r, depth) },
        from: None,
        to: None,
        thid: opt(r, gen::text),
        pthid: opt(r, gen::text),
        extra_headers: (0..nh).map(|_| (gen::header_name(r), gen::json(r, depth.min(2)))).collect(),
        created_time: opt(r, gen::u64v),
        expires_time: opt(r, gen::u64v),
        from_prior: None,
        attachments: if r.bool() {
            None
        } else {
            let n = gen::count(r, 4);
            Some((0..n).map(|_| attachment(r, depth.min(2))).collect())
        },
    }
}

pub fn data_json(d: &AttachmentData) -> Value {
    let mut m = Map::new();
    let jws = match d {
        AttachmentData::Base64 { value } => {
            m.insert("base64".into(), json!(value.base64));
            &value.jws
        }
        AttachmentData::Json { value } => {
            m.insert("json".into(), value.json.clone());
            &value.jws
        }
        AttachmentData::Links { value } => {
            m.insert("links".into(), json!(value.links));
            m.insert("hash".into(), json!(value.hash));
            &value.jws
        }
    };
    if let Some(j) = jws {
        m.insert("jws".into(), json!(j));
    }
    Value::Object(m)
}

pub fn attachment_json(a: &Attachment) -> Value {
    let mut m = Map::new();
    m.insert("data".into(), data_json(&a.data));
    let mut s = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            m.insert(k.into(), v);
        }
    };
    s("id", a.id.as_ref().map(|x| json!(x)));
    s("description", a.description.as_ref().map(|x| json!(x)));
    s("filename", a.filename.as_ref().map(|x| json!(x)));
    s("media_type", a.media_type.as_ref().map(|x| json!(x)));
    s("format", a.format.as_ref().map(|x| json!(x)));
    s("lastmod_time", a.lastmod_time.map(|x| json!(x)));
    s("byte_count", a.byte_count.map(|x| json!(x)));
    Value::Object(m)
}

/// The JSON object the DIDComm v2 plaintext format prescribes for this value.
pub fn message_json(x: &Message) -> Value {
    let mut m = Map::new();
    for (k, v) in &x.extra_headers {
        m.insert(k.clone(), v.clone());
    }
    m.insert("id".into(), json!(x.id));
    m.insert("typ".into(), json!(x.typ));
    m.insert("type".into(), json!(x.type_));
    m.insert("body".into(), x.body.clone());
    let mut s = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            m.insert(k.into(), v);
        }
    };
    s("from", x.from.as_ref().map(|x| json!(x)));
    s("to", x.to.as_ref().map(|x| json!(x)));
    s("thid", x.thid.as_ref().map(|x| json!(x)));
    s("pthid", x.pthid.as_ref().map(|x| json!(x)));
    s("created_time", x.created_time.map(|x| json!(x)));
    s("expires_time", x.expires_time.map(|x| json!(x)));
    s("from_prior", x.from_prior.as_ref().map(|x| json!(x)));
    s("attachments", x.attachments.as_ref().map(|a| Value::Array(a.iter().map(attachment_json).collect())));
    Value::Object(m)
}

/// Equality of the value, decided on every field by the harness, not by the crate's own PartialEq.
pub fn same(a: &Message, b: &Message) -> bool {
    message_json(a) == message_json(b)
        && a.extra_headers.len() == b.extra_headers.len()
        && a.to.is_some() == b.to.is_some()
        && a.attachments.is_some() == b.attachments.is_some()
}

/// Which optional parts are present: what makes two generated messages structurally distinct.
pub fn shape(x: &Message) -> String {
    let att: String = x
        .attachments
        .iter()
        .flatten()
        .map(|a| match a.data {
            AttachmentData::Base64 { .. } => 'b',
            AttachmentData::Json { .. } => 'j',
            AttachmentData::Links { .. } => 'l',
        })
        .collect();
    format!(
        "{}{}{}{}{}{}{}h{}a{}:{}",
        x.from.is_some() as u8,
        x.to.as_ref().map(|t| t.len()).unwrap_or(9),
        x.thid.is_some() as u8,
        x.pthid.is_some() as u8,
        x.created_time.is_some() as u8,
        x.expires_time.is_some() as u8,
        x.from_prior.is_some() as u8,
        x.extra_headers.len(),
        x.attachments.as_ref().map(|t| t.len()).unwrap_or(9),
        att
    )
}
