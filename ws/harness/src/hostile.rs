//! Hostile strings, JSON, key material, documents and resolver answers.
use crate::{
    dc::{
        did::{DIDDoc, DIDResolver, Service, VerificationMaterial, VerificationMethod},
        error::Result,
        secrets::{Secret, SecretMaterial, SecretsResolver},
    },
    refc::*,
    world::*,
};
#[path = "../../shared/gdoc.rs"]
pub mod gdoc;
use async_trait::async_trait;
use serde_json::{json, Value};
use vcommon::{gen, Rng};

/// Text of up to `max` bytes whose characters are one to four bytes long.
pub fn wide(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let a = r.below(n);
    let mut s = gen::word(r, a);
    while s.len() < n {
        s.push(*r.pick(&['a', '-', 'é', 'ß', '漢', '\u{1F600}', '\u{301}']));
    }
    s
}

pub fn id(r: &mut Rng, known: &[String]) -> String {
    match r.below(14) {
        12 | 13 if !known.is_empty() => {
            let k = r.pick(known).clone();
            let n = *r.pick(&[8, 40, 130, 300]);
            let w = wide(r, n);
            match r.below(4) {
                0 => format!("{k}{w}"),
                1 => format!("{w}{k}"),
                _ => format!("{}#{w}", k.split('#').next().unwrap()),
            }
        }
        0..=4 if !known.is_empty() => {
            let k = r.pick(known).clone();
            match r.below(9) {
                0 => format!("{k}#"),
                1 => format!("{k}#x"),
                2 => k.split('#').next().unwrap().to_string(),
                3 => format!("{}#", k.split('#').next().unwrap()),
                4 => format!("#{}", k.split('#').nth(1).unwrap_or("")),
                5 => k.to_uppercase(),
                _ => k,
            }
        }
        5 => gen::text(r),
        6 => format!("did:{}:{}", gen::text(r), gen::text(r)),
        7 => "did:x:".repeat(r.range(1, 300)),
        _ => (*r.pick(&["", "#", "##", "did", "did:", "did::", "did:::", "did:x", "did:x:y#", "did:x:y#a#b", "did:x:y?q=1#k", ":did:x", "#did:x:y", "did:é:漢", "\u{0}", "did:x:y\n"])).to_string(),
    }
}

pub fn value(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => json!(null),
        1 => json!(u64::MAX),
        2 => json!(i64::MIN),
        3 => json!(1.5e300),
        4 => json!(""),
        5 => json!([]),
        6 => json!({}),
        7 => {
            let mut v = json!(1);
            for _ in 0..r.range(10, 100) {
                v = if r.bool() { json!([v]) } else { json!({"a": v}) };
            }
            v
        }
        8 => json!(id(r, &[])),
        9 => json!("A".repeat(r.range(1, 5000))),
        _ => gen::json(r, 3),
    }
}

/// Changes one place of a JSON value.
pub fn mutate(v: &mut Value, r: &mut Rng) {
    match v {
        Value::Object(m) if !m.is_empty() && r.chance(5, 6) => {
            let k = m.keys().nth(r.below(m.len())).unwrap().clone();
            match r.below(8) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    let x = value(r);
                    m.insert(k, x);
                }
                2 => {
                    let (n, x) = (gen::text(r), value(r));
                    m.insert(n, x);
                }
                3 => {
                    // one member under another's name
                    let k2 = m.keys().nth(r.below(m.len())).unwrap().clone();
                    let x = m[&k].clone();
                    m.insert(k2, x);
                }
                _ => mutate(m.get_mut(&k).unwrap(), r),
            }
        }
        Value::Array(a) if !a.is_empty() && r.chance(5, 6) => {
            let i = r.below(a.len());
            match r.below(7) {
                0 => {
                    a.remove(i);
                }
                1 => a.push(value(r)),
                2 => {
                    let x = a[i].clone();
                    for _ in 0..r.range(1, 20) {
                        a.push(x.clone())
                    }
                }
                _ => mutate(&mut a[i], r),
            }
        }
        Value::String(s) => *s = string(s, r),
        _ => *v = value(r),
    }
}

/// A string near `s`, if it is base64 then also by changing what it decodes to.
pub fn string(s: &str, r: &mut Rng) -> String {
    if r.bool() {
        if let Some(mut b) = unb64(s) {
            match r.below(6) {
                0 => b.truncate(*r.pick(&[0usize, 1, 7, 8, 11, 12, 15, 16, 23, 24, 31, 32, 33, 39, 40, 63, 64, 65])),
                1 => {
                    let n = r.range(1, 80);
                    b.extend(r.bytes(n))
                }
                2 if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                3 => {
                    let n = *r.pick(&[0usize, 1, 8, 12, 16, 24, 32, 40, 64, 72, 200]);
                    b = r.bytes(n)
                }
                4 => b = vec![*r.pick(&[0u8, 0xff]); b.len()],
                _ => {
                    // JSON inside
                    if let Ok(mut v) = serde_json::from_slice::<Value>(&b) {
                        mutate(&mut v, r);
                        b = v.to_string().into_bytes();
                    } else {
                        b.reverse()
                    }
                }
            }
            return b64(&b);
        }
    }
    match r.below(8) {
        0 => String::new(),
        1 => s.chars().take(r.below(s.chars().count() + 1)).collect(),
        2 => format!("{s}{}", *r.pick(&["=", "==", "\n", " ", "+", "/", ".", "#", "é", "\u{0}"])),
        3 => format!("{s}{s}"),
        4 => id(r, &[s.to_string()]),
        5 => text(s, r),
        _ => gen::text(r),
    }
}

/// Changes a text at random places.
pub fn text(t: &str, r: &mut Rng) -> String {
    let mut b = t.as_bytes().to_vec();
    for _ in 0..r.range(1, 4) {
        let i = r.below(b.len().max(1));
        match r.below(7) {
            0 if !b.is_empty() => b[i] = r.u64() as u8,
            1 if !b.is_empty() => {
                b.remove(i);
            }
            2 => b.insert(i.min(b.len()), *r.pick(b"{}[]\",:0-\\e.#\x00\xff")),
            3 => b.truncate(i),
            4 => {
                let j = r.below(b.len() + 1);
                let (i, j) = (i.min(j), i.max(j));
                let s = b[i..j].to_vec();
                let k = r.below(b.len() + 1);
                b.splice(k..k, s);
            }
            5 => {
                let w = *r.pick(&["null", "\"\"", "[]", "{}", "-1", "1e999", "18446744073709551616", "\"\\ud800\"", "true", "..", "\\u0000"]);
                b.splice(i.min(b.len())..i.min(b.len()), w.bytes());
            }
            _ => b.extend(r.bytes(3)),
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

fn hostile_b58(s: &str, r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => "z".into(),
        2 => "zé".into(),
        3 => "é".into(),
        4 => format!("{s}0"),
        5 => {
            let n = *r.pick(&[0usize, 1, 2, 16, 31, 32, 33, 34, 63, 64, 65, 66, 67, 200]);
            let b = r.bytes(n);
            format!("{}{}", *r.pick(&["z", "", "m", "Z"]), bs58::encode(b).into_string())
        }
        6 => {
            // a codec written as an overlong or endless varint
            let mut b = vec![*r.pick(&[0xffu8, 0x80, 0xec, 0xed, 0x82, 0]); r.range(0, 12)];
            let n = *r.pick(&[0usize, 1, 31, 32, 33, 64]);
            b.extend(r.bytes(n));
            format!("z{}", bs58::encode(b).into_string())
        }
        7 => {
            let c = *r.pick(&[0u32, 0xec, 0xed, 0x1300, 0x1302, 0xe7, 0x1200, u32::MAX, 0x7f, 0x80]);
            let n = *r.pick(&[0usize, 1, 16, 31, 32, 33, 63, 64, 65]);
            multibase(c, &r.bytes(n))
        }
        _ => text(s, r),
    }
}

fn hostile_jwk(v: &Value, r: &mut Rng) -> Value {
    let mut v = v.clone();
    for _ in 0..r.range(1, 2) {
        if !v.is_object() {
            break;
        }
        match r.below(8) {
            0 => v["crv"] = json!(*r.pick(&["P-256", "X25519", "Ed25519", "secp256k1", "P-384", "", "p-256", "BLS12381_G1"])),
            1 => v["kty"] = json!(*r.pick(&["EC", "OKP", "RSA", "oct", ""])),
            2 => {
                let n = *r.pick(&[0usize, 1, 31, 32, 33, 64]);
                let k = *r.pick(&["x", "y", "d"]);
                v[k] = json!(b64(&r.bytes(n)));
            }
            3 => {
                let k = *r.pick(&["x", "y", "d"]);
                v[k] = json!(b64(&[*r.pick(&[0u8, 0xff]); 32]));
            }
            _ => mutate(&mut v, r),
        }
    }
    v
}

pub fn vm(m: &mut VerificationMethod, r: &mut Rng) {
    if r.chance(1, 3) {
        m.type_ = gdoc::vm_type(r.below(7));
    }
    if r.chance(1, 6) {
        m.verification_material = gdoc::vm(r, "did:x:y").verification_material;
    }
    match &mut m.verification_material {
        VerificationMaterial::JWK { public_key_jwk } => *public_key_jwk = hostile_jwk(public_key_jwk, r),
        VerificationMaterial::Multibase { public_key_multibase } => *public_key_multibase = hostile_b58(public_key_multibase, r),
        VerificationMaterial::Base58 { public_key_base58 } => *public_key_base58 = hostile_b58(public_key_base58, r),
    }
}

pub fn secret(s: &mut Secret, r: &mut Rng) {
    if r.chance(1, 3) {
        s.type_ = gdoc::secret_type(r.below(7));
    }
    if r.chance(1, 6) {
        s.secret_material = gdoc::secret(r).secret_material;
    }
    match &mut s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => *private_key_jwk = hostile_jwk(private_key_jwk, r),
        SecretMaterial::Multibase { private_key_multibase } => *private_key_multibase = hostile_b58(private_key_multibase, r),
        SecretMaterial::Base58 { private_key_base58 } => *private_key_base58 = hostile_b58(private_key_base58, r),
    }
}

pub fn service_(r: &mut Rng, known: &[String]) -> Service {
    let (i, u) = (id(r, known), id(r, known));
    let n = r.below(4);
    let keys = (0..n).map(|_| id(r, known)).collect();
    let acc = match r.below(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![gen::text(r)]),
        _ => Some(vec!["didcomm/v2".into()]),
    };
    if r.chance(1, 4) {
        gdoc::service(r)
    } else {
        service(i, u, acc, keys)
    }
}

/// Makes a document wrong in a few places.
pub fn doc(d: &mut DIDDoc, r: &mut Rng, known: &[String]) {
    for _ in 0..r.range(1, 3) {
        match r.below(11) {
            0 => d.key_agreement.clear(),
            1 => {
                let i = r.below(d.key_agreement.len() + 1);
                d.key_agreement.insert(i, id(r, known));
            }
            2 => {
                let i = r.below(d.authentication.len() + 1);
                d.authentication.insert(i, id(r, known));
            }
            3 => d.authentication.clear(),
            4 => {
                if !d.verification_method.is_empty() {
                    let i = r.below(d.verification_method.len());
                    d.verification_method.remove(i);
                }
            }
            5 | 6 => {
                if !d.verification_method.is_empty() {
                    let i = r.below(d.verification_method.len());
                    vm(&mut d.verification_method[i], r);
                }
            }
            7 => {
                // the same id twice with different material
                if !d.verification_method.is_empty() {
                    let i = r.below(d.verification_method.len());
                    let mut m = d.verification_method[i].clone();
                    vm(&mut m, r);
                    d.verification_method.insert(0, m);
                }
            }
            8 => {
                let s = service_(r, known);
                d.service.insert(0, s)
            }
            9 => std::mem::swap(&mut d.key_agreement, &mut d.authentication),
            _ => d.id = id(r, known),
        }
    }
}

/// Resolvers that answer with anything the interface allows.
#[derive(Clone)]
pub struct HDr {
    pub dr: Dr,
    /// Any DID gets this document.
    pub any: Option<DIDDoc>,
}

#[async_trait]
impl DIDResolver for HDr {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        let d = self.dr.resolve(did).await?;
        Ok(d.or_else(|| self.any.clone()))
    }
}

#[derive(Clone)]
pub struct HSr {
    pub sr: Sr,
    /// 0 honest; 1 reports everything asked; 2 reports ids nobody asked for; 3 repeats; 4 empty strings; 5 some other secret for any id
    pub how: usize,
    pub other: Option<Secret>,
}

#[async_trait]
impl SecretsResolver for HSr {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>> {
        let s = self.sr.get_secret(id).await?;
        Ok(if self.how == 5 { self.other.clone() } else { s })
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        let mut v = self.sr.find_secrets(ids).await?;
        match self.how {
            1 => v = ids.to_vec(),
            2 => v.insert(0, "did:nobody:asked#for"),
            3 => {
                let w = v.clone();
                v.extend(w.iter().rev());
                v.extend(w);
            }
            4 => v.insert(0, ""),
            5 => v = ids.to_vec(),
            _ => {}
        }
        Ok(v)
    }
}
