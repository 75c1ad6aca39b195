//! Generators of strings and JSON values.
use crate::rng::Rng;
use serde_json::{Map, Value};

pub const RESERVED: &[&str] = &[
    "id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments",
];

const ALPH: &[&str] = &[
    "a", "b", "z", "A", "0", "9", " ", "-", "_", ".", ":", "/", "#", "?", "=", "+", "%", "\\", "\"", "'", "\n", "\t", "\r", "\u{0}",
    "\u{1f}", "\u{7f}", "é", "ß", "漢", "字", "🙂", "\u{200d}", "\u{feff}", "\u{2028}", "\u{fffd}", "\u{10ffff}", "{", "}", "[", "]", "<", "&", "null",
];

/// Strings with a meaning somewhere in the formats.
const REAL: &[&str] = &[
    "did:example:alice", "did:example:alice#key-1", "did:example:alice?service=a/b#key-1", "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK",
    "did:web:example.com%3A3000:user:alice", "DID:EXAMPLE:ALICE", "#key-1", "key-1", "https://example.com/", "https://example.com", "http://EXAMPLE.com:80/a//b/../c?q=1&r=#f",
    "ws://example.com/ws", "mailto:a@b.example", "application/didcomm-plain+json", "application/didcomm-plain+json; charset=utf-8", "application/json",
    "application/didcomm-encrypted+json", "didcomm/v2", "didcomm/aip2;env=rfc19", "3f1d5ab2-6b11-4c1a-9d5c-2f0e8a6d2b11", "urn:uuid:3F1D5AB2-6B11-4C1A-9D5C-2F0E8A6D2B11",
    "eyJhbGciOiJub25lIn0", "YWJj", "YWI=", "YQ==", "-_-_", "+/+/", "eyJ0eXAiOiJKV1QifQ.eyJpc3MiOiJ4In0.c2ln", "true", "false", "null", "0", "-1", "1.0", "01", "1e3", "NaN",
    " lead", "trail ", "\ttab", "line\n", "a\r\nb", "2021-01-01T00:00:00Z", "z6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc", "QmcWyBPyedDzHFytTX6CAjjpvqQAyhzURziwiBKDKgqx6R",
    "{\"a\":1}", "[]", "\\u0041", "%20", "e\u{301}", "\u{e9}", "\u{130}", "\u{17f}", "\u{212a}", "\u{1f468}\u{200d}\u{1f469}", "a\u{0}", "\u{202e}abc", "https://didcomm.org/routing/2.0/forward",
    "JWM", "JWK", "id", "typ", "type", "from", "Other", "DIDCommMessaging", "alg", "none", ".", "..", "/", "*",
];

pub fn text(r: &mut Rng) -> String {
    if r.chance(1, 16) && !r.1.is_empty() {
        let i = r.below(r.1.len());
        return r.1[i].clone();
    }
    let n = match r.below(11) {
        0 => 0,
        1..=5 => r.range(1, 12),
        6 | 7 => r.range(13, 60),
        8 if r.chance(1, 12) => r.range(800, 5000),
        8 => r.range(61, 400),
        _ => {
            let s = r.pick(REAL).to_string();
            return keep(r, s);
        }
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(ALPH))
    }
    keep(r, s)
}

fn keep(r: &mut Rng, s: String) -> String {
    if s.len() < 2000 {
        if r.1.len() < 12 {
            r.1.push(s.clone())
        } else {
            let i = r.below(12);
            r.1[i] = s.clone()
        }
    }
    s
}

/// A number below `n`, now and then much greater.
pub fn count(r: &mut Rng, n: usize) -> usize {
    match r.below(120) {
        0 => r.range(n, 4 * n + 60),
        1..=4 => r.range(n, 2 * n + 6),
        _ => r.below(n),
    }
}

pub fn word(r: &mut Rng, n: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    (0..n).map(|_| *r.pick(A) as char).collect()
}

pub fn u64v(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => i64::MAX as u64,
        4 => i64::MAX as u64 + 1,
        5 => u32::MAX as u64,
        6 => 1_516_269_022,
        _ => r.u64() >> r.below(64),
    }
}

pub fn json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => Value::Bool(r.bool()),
        2 => Value::from(u64v(r)),
        3 => match r.below(4) {
            0 => Value::from(i64::MIN),
            1 => Value::from(-(r.below(1000) as i64) - 1),
            2 => Value::from(*r.pick(&[0.5f64, -1.25, 1024.75, 0.0625])),
            _ => Value::from(-1),
        },
        4 | 5 => Value::String(text(r)),
        6 => {
            let n = count(r, 4);
            Value::Array((0..n).map(|_| json(r, depth - 1)).collect())
        }
        _ => obj(r, depth - 1),
    }
}

pub fn obj(r: &mut Rng, depth: usize) -> Value {
    let n = count(r, 5);
    let mut m = Map::new();
    for _ in 0..n {
        let k = if r.chance(1, 6) { r.pick(RESERVED).to_string() } else { text(r) };
        m.insert(k, json(r, depth));
    }
    Value::Object(m)
}

/// A header name that is not one of the message's own members.
pub fn header_name(r: &mut Rng) -> String {
    loop {
        let k = match r.below(4) {
            0 => text(r),
            1 => {
                // near misses of the reserved names
                let b = r.pick(RESERVED).to_string();
                match r.below(4) {
                    0 => b.to_uppercase(),
                    1 => format!("{b} "),
                    2 => format!("{b}s"),
                    _ => format!("_{b}"),
                }
            }
            2 => (*r.pick(&["return_route", "please_ack", "ack", "l10n", "lang", "createdTime", "expiresTime", "type_", "fromPrior", "next", "typ_", "~thread", "@id", "@type", "@context", "expires", "created", "sender", "recipients", "parent_thid", "threadId"])).to_string(),
            _ => word(r, 5),
        };
        if !RESERVED.contains(&k.as_str()) {
            return k;
        }
    }
}

/// Writes a JSON value with a chosen style: member order, white space and escaping vary, meaning does not.
pub fn restyle(v: &Value, r: &mut Rng, escape: bool) -> String {
    fn ws(r: &mut Rng) -> &'static str {
        *r.pick(&["", "", "", " ", "\n", "\t", "  "])
    }
    fn string(s: &str, r: &mut Rng, escape: bool) -> String {
        if !escape || !r.chance(1, 2) {
            return serde_json::to_string(s).unwrap();
        }
        let mut o = String::from("\"");
        for c in s.chars() {
            if c == '/' && r.bool() {
                o.push_str("\\/");
            } else if r.chance(1, 4) {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            } else {
                let q = serde_json::to_string(&c.to_string()).unwrap();
                o.push_str(&q[1..q.len() - 1]);
            }
        }
        o.push('"');
        o
    }
    match v {
        Value::Object(m) => {
            let mut e: Vec<_> = m.iter().collect();
            r.shuffle(&mut e);
            let mut o = format!("{{{}", ws(r));
            for (i, (k, v)) in e.into_iter().enumerate() {
                if i > 0 {
                    o.push_str(&format!(",{}", ws(r)));
                }
                o.push_str(&string(k, r, escape));
                o.push_str(&format!("{}:{}", ws(r), ws(r)));
                o.push_str(&restyle(v, r, escape));
                o.push_str(ws(r));
            }
            o.push('}');
            o
        }
        Value::Array(a) => {
            let mut o = format!("[{}", ws(r));
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    o.push_str(&format!(",{}", ws(r)));
                }
                o.push_str(&restyle(v, r, escape));
                o.push_str(ws(r));
            }
            o.push(']');
            o
        }
        Value::String(s) => string(s, r, escape),
        x => x.to_string(),
    }
}
