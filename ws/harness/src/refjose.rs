//! Independent DIDComm v2 envelope code: builds JWE/JWS/JWT with any malformation, opens them strictly.
use crate::refc::*;
use serde_json::{json, Map, Value};
use vcommon::Rng;

pub fn apv_of<S: AsRef<str>>(kids: &[S]) -> Vec<u8> {
    let mut k: Vec<&[u8]> = kids.iter().map(|s| s.as_ref().as_bytes()).collect();
    k.sort();
    sha256(&k.join(&b"."[..]))
}

pub const ES: &str = "ECDH-ES+A256KW";
pub const PU: &str = "ECDH-1PU+A256KW";

/// A JWE about to be made: every part can still be changed before `seal`.
#[derive(Clone)]
pub struct Plan {
    pub header: Map<String, Value>,
    pub recips: Vec<(String, Key)>,
    pub sender: Option<Key>,
    pub epk: Key,
    pub cek: Vec<u8>,
    pub iv: Vec<u8>,
    /// Content encryption really used; normally the header's `enc`.
    pub enc: String,
    /// alg really used by the key derivation.
    pub alg: String,
}

pub struct Sealed {
    pub header_b64: String,
    pub recips: Vec<(String, Vec<u8>)>,
    pub iv: Vec<u8>,
    pub ct: Vec<u8>,
    pub tag: Vec<u8>,
}

impl Plan {
    pub fn new(r: &mut Rng, enc: &str, recips: &[(String, Key)], sender: Option<(&str, &Key)>) -> Plan {
        let crv = recips.first().map(|x| x.1.crv).unwrap_or(Crv::X25519);
        let epk = Key::gen(r, crv);
        let alg = if sender.is_some() { PU } else { ES };
        let kids: Vec<&str> = recips.iter().map(|x| x.0.as_str()).collect();
        let mut h = Map::new();
        h.insert("typ".into(), json!("application/didcomm-encrypted+json"));
        h.insert("alg".into(), json!(alg));
        h.insert("enc".into(), json!(enc));
        h.insert("epk".into(), epk.jwk(false));
        h.insert("apv".into(), json!(b64(&apv_of(&kids))));
        if let Some((skid, _)) = sender {
            h.insert("skid".into(), json!(skid));
            h.insert("apu".into(), json!(b64(skid.as_bytes())));
        }
        Plan {
            header: h,
            recips: recips.to_vec(),
            sender: sender.map(|s| s.1.clone()),
            epk,
            cek: r.bytes(cek_len(enc)),
            iv: r.bytes(iv_len(enc)),
            enc: enc.into(),
            alg: alg.into(),
        }
    }
    pub fn seal_with(&self, header_text: &str, pt: &[u8]) -> Sealed {
        let header_b64 = b64(header_text.as_bytes());
        let (ct, tag) = encrypt(&self.enc, &self.cek, &self.iv, header_b64.as_bytes(), pt);
        let recips = self.wraps(&tag, &self.cek);
        Sealed { header_b64, recips, iv: self.iv.clone(), ct, tag }
    }
    /// The recipients' wrapped content keys.
    pub fn wraps(&self, tag: &[u8], cek: &[u8]) -> Vec<(String, Vec<u8>)> {
        self.recips.iter().map(|(kid, k)| (kid.clone(), kw_wrap(&self.kek(k, tag), cek))).collect()
    }
    pub fn kek(&self, k: &Key, tag: &[u8]) -> Vec<u8> {
        let g = |k: &str| self.header.get(k).and_then(|v| v.as_str()).and_then(unb64).unwrap_or_default();
        let (apu, apv) = (g("apu"), g("apv"));
        let mut z = self.epk.ecdh(k).unwrap_or_else(|| vec![0; 32]);
        let mut t = None;
        if let Some(s) = &self.sender {
            z.extend(s.ecdh(k).unwrap_or_else(|| vec![0; 32]));
            t = Some(tag);
        }
        concat_kdf(&z, self.alg.as_bytes(), &apu, &apv, t)
    }
    pub fn seal(&self, pt: &[u8]) -> Sealed {
        self.seal_with(&Value::Object(self.header.clone()).to_string(), pt)
    }
}

impl Sealed {
    pub fn json(&self) -> Value {
        json!({
            "protected": self.header_b64,
            "recipients": self.recips.iter().map(|(k, e)| json!({"header": {"kid": k}, "encrypted_key": b64(e)})).collect::<Vec<_>>(),
            "iv": b64(&self.iv),
            "ciphertext": b64(&self.ct),
            "tag": b64(&self.tag),
        })
    }
    pub fn text(&self) -> String {
        self.json().to_string()
    }
}

pub fn jwe(r: &mut Rng, enc: &str, recips: &[(String, Key)], sender: Option<(&str, &Key)>, pt: &[u8]) -> String {
    Plan::new(r, enc, recips, sender).seal(pt).text()
}

#[derive(Clone, Debug)]
pub struct Opened {
    pub header: Map<String, Value>,
    pub kids: Vec<String>,
    pub cek: Vec<u8>,
    pub iv: Vec<u8>,
    pub epk: Key,
    pub plaintext: Vec<u8>,
    pub alg: String,
    pub enc: String,
}

/// The parts of a JWE, demanding exactly the shape the DIDComm v2 general JSON serialization has.
pub fn parts(text: &str) -> Result<(Map<String, Value>, Vec<(String, Vec<u8>)>, Value), String> {
    if vcommon::jsonutil::no_duplicates(text) != Ok(true) {
        return Err("not JSON, or repeated members".into());
    }
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let o = v.as_object().ok_or("not an object")?;
    let mut names: Vec<_> = o.keys().map(|s| s.as_str()).collect();
    names.sort();
    if names != ["ciphertext", "iv", "protected", "recipients", "tag"] {
        return Err(format!("members {names:?}"));
    }
    let hb = unb64(o["protected"].as_str().ok_or("protected")?).ok_or("protected is not base64url")?;
    let ht = String::from_utf8(hb).map_err(|_| "protected is not utf-8")?;
    if vcommon::jsonutil::no_duplicates(&ht) != Ok(true) {
        return Err("header has repeated members".into());
    }
    let h: Value = serde_json::from_str(&ht).map_err(|e| e.to_string())?;
    let h = h.as_object().cloned().ok_or("header is not an object")?;
    let mut rc = vec![];
    for x in o["recipients"].as_array().ok_or("recipients")? {
        let m = x.as_object().ok_or("recipient")?;
        let hd = m.get("header").and_then(|h| h.as_object()).ok_or("recipient header")?;
        if m.len() != 2 || hd.len() != 1 {
            return Err("recipient has other members".into());
        }
        let k = hd.get("kid").and_then(|k| k.as_str()).ok_or("kid")?;
        let e = m.get("encrypted_key").and_then(|k| k.as_str()).and_then(unb64).ok_or("encrypted_key")?;
        rc.push((k.to_string(), e));
    }
    Ok((h, rc, v.clone()))
}

/// Opens a JWE with one recipient key, refusing anything not exactly as the specification says.
pub fn open(text: &str, kid: &str, key: &Key, sender: &dyn Fn(&str) -> Option<Key>) -> Result<Opened, String> {
    let (h, rc, v) = parts(text)?;
    let s = |k: &str| h.get(k).and_then(|x| x.as_str());
    let alg = s("alg").ok_or("no alg")?;
    let enc = s("enc").ok_or("no enc")?;
    let mut names: Vec<_> = h.keys().map(|s| s.as_str()).collect();
    names.sort();
    let want: &[&str] = match alg {
        ES => &["alg", "apv", "enc", "epk", "typ"],
        PU => &["alg", "apu", "apv", "enc", "epk", "skid", "typ"],
        _ => return Err(format!("alg {alg}")),
    };
    if names != want {
        return Err(format!("header members {names:?}"));
    }
    if s("typ") != Some("application/didcomm-encrypted+json") {
        return Err("typ".into());
    }
    if !ENCS.contains(&enc) || (alg == PU && enc != "A256CBC-HS512") {
        return Err(format!("enc {enc} with {alg}"));
    }
    let kids: Vec<String> = rc.iter().map(|x| x.0.clone()).collect();
    let apv = s("apv").and_then(unb64).ok_or("apv")?;
    if apv != apv_of(&kids) {
        return Err("apv is not the hash of the sorted recipient ids".into());
    }
    let apu = match s("apu") {
        Some(a) => unb64(a).ok_or("apu")?,
        None => vec![],
    };
    let epk_v = h.get("epk").ok_or("epk")?;
    let epk = Key::from_jwk(epk_v).ok_or("epk is not a supported public key")?;
    if epk_v.as_object().map(|o| o.len()) != Some(if epk.crv.kty() == "EC" { 4 } else { 3 }) {
        return Err("epk has other members".into());
    }
    if epk.crv != key.crv {
        return Err("epk curve".into());
    }
    let d = |k: &str| v[k].as_str().and_then(unb64).ok_or(format!("{k} is not base64url"));
    let (iv, ct, tag) = (d("iv")?, d("ciphertext")?, d("tag")?);
    let mut z = epk_dh(key, &epk)?;
    let mut t = None;
    if alg == PU {
        let skid = s("skid").ok_or("skid")?;
        if apu != skid.as_bytes() {
            return Err("apu is not skid".into());
        }
        let sk = sender(skid).ok_or("unknown sender key")?;
        z.extend(key.ecdh(&sk).ok_or("sender key curve")?);
        t = Some(&tag[..]);
    }
    let kek = concat_kdf(&z, alg.as_bytes(), &apu, &apv, t);
    let ek = &rc.iter().find(|x| x.0 == kid).ok_or("not a recipient")?.1;
    let cek = kw_unwrap(&kek, ek).ok_or("content key does not unwrap")?;
    let pt = decrypt(enc, &cek, &iv, v["protected"].as_str().unwrap().as_bytes(), &ct, &tag).ok_or("content does not decrypt")?;
    Ok(Opened { alg: alg.into(), enc: enc.into(), header: h.clone(), kids, cek, iv, epk, plaintext: pt })
}

fn epk_dh(key: &Key, epk: &Key) -> Result<Vec<u8>, String> {
    key.ecdh(epk).ok_or_else(|| "ecdh".into())
}

/// A general-JSON JWS with the given signers: (kid, key, protected header).
pub fn jws_with(payload: &[u8], signers: &[(String, Key, Value)]) -> Value {
    let p = b64(payload);
    let sigs: Vec<Value> = signers
        .iter()
        .map(|(kid, k, h)| {
            let hb = b64(h.to_string().as_bytes());
            let s = k.sign(format!("{hb}.{p}").as_bytes());
            json!({"protected": hb, "signature": b64(&s), "header": {"kid": kid}})
        })
        .collect();
    json!({"payload": p, "signatures": sigs})
}

pub fn jws(payload: &[u8], kid: &str, k: &Key) -> Value {
    jws_with(payload, &[(kid.into(), k.clone(), json!({"typ": "application/didcomm-signed+json", "alg": k.crv.sign_alg()}))])
}

#[derive(Debug)]
pub struct Verified {
    pub payload: Vec<u8>,
    pub kid: String,
    pub alg: String,
}

pub fn verify_jws(text: &str, keys: &dyn Fn(&str) -> Option<Key>) -> Result<Verified, String> {
    if vcommon::jsonutil::no_duplicates(text) != Ok(true) {
        return Err("not JSON, or repeated members".into());
    }
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let o = v.as_object().ok_or("not an object")?;
    let mut names: Vec<_> = o.keys().map(|s| s.as_str()).collect();
    names.sort();
    if names != ["payload", "signatures"] {
        return Err(format!("members {names:?}"));
    }
    let p = o["payload"].as_str().ok_or("payload")?;
    let sigs = o["signatures"].as_array().ok_or("signatures")?;
    if sigs.len() != 1 {
        return Err("not exactly one signature".into());
    }
    let s = sigs[0].as_object().ok_or("signature")?;
    let mut names: Vec<_> = s.keys().map(|s| s.as_str()).collect();
    names.sort();
    if names != ["header", "protected", "signature"] {
        return Err(format!("signature members {names:?}"));
    }
    if s["header"].as_object().map(|h| h.len()) != Some(1) {
        return Err("unprotected header".into());
    }
    let kid = s["header"]["kid"].as_str().ok_or("kid")?;
    let pr = s["protected"].as_str().ok_or("protected")?;
    let h: Value = serde_json::from_slice(&unb64(pr).ok_or("protected base64")?).map_err(|e| e.to_string())?;
    if h.as_object().map(|h| h.len()) != Some(2) || h["typ"] != "application/didcomm-signed+json" {
        return Err(format!("protected header {h}"));
    }
    let k = keys(kid).ok_or("unknown signer key")?;
    if h["alg"] != k.crv.sign_alg() {
        return Err(format!("alg {} for a {:?} key", h["alg"], k.crv));
    }
    let sig = s["signature"].as_str().and_then(unb64).ok_or("signature base64")?;
    if !k.verify(format!("{pr}.{p}").as_bytes(), &sig) {
        return Err("signature does not verify".into());
    }
    Ok(Verified { payload: unb64(p).ok_or("payload base64")?, kid: kid.into(), alg: k.crv.sign_alg().into() })
}

pub fn jwt(header: &Value, payload: &[u8], k: &Key) -> String {
    let i = format!("{}.{}", b64(header.to_string().as_bytes()), b64(payload));
    format!("{i}.{}", b64(&k.sign(i.as_bytes())))
}

pub fn is_jwe(text: &str) -> bool {
    serde_json::from_str::<Value>(text).map(|v| v.get("ciphertext").is_some()).unwrap_or(false)
}
pub fn is_jws(text: &str) -> bool {
    serde_json::from_str::<Value>(text).map(|v| v.get("signatures").is_some()).unwrap_or(false)
}
