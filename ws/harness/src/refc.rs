//! Reference cryptography: RFC 7516/7518, ECDH-1PU draft 4 and EdDSA/ECDSA composed directly from OpenSSL primitives.
use openssl::{
    bn::{BigNum, BigNumContext},
    derive::Deriver,
    ec::{EcGroup, EcKey, EcPoint},
    ecdsa::EcdsaSig,
    hash::{hash, MessageDigest},
    nid::Nid,
    pkey::{Id, PKey, Private, Public},
    sign::Signer,
    symm::{decrypt_aead, encrypt_aead, Cipher, Crypter, Mode},
};
use serde_json::{json, Value};
use vcommon::Rng;

pub fn b64(b: &[u8]) -> String {
    askar_crypto::util::b64e(b)
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    askar_crypto::util::b64d(s)
}
pub fn sha256(b: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha256(), b).unwrap().to_vec()
}
pub fn hmac512(k: &[u8], m: &[u8]) -> Vec<u8> {
    let k = PKey::hmac(k).unwrap();
    let mut s = Signer::new(MessageDigest::sha512(), &k).unwrap();
    s.update(m).unwrap();
    s.sign_to_vec().unwrap()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Crv {
    X25519,
    P256,
    Ed25519,
    K256,
}
use Crv::*;

impl Crv {
    pub fn name(self) -> &'static str {
        match self {
            X25519 => "X25519",
            P256 => "P-256",
            Ed25519 => "Ed25519",
            K256 => "secp256k1",
        }
    }
    pub fn kty(self) -> &'static str {
        match self {
            X25519 | Ed25519 => "OKP",
            _ => "EC",
        }
    }
    fn group(self) -> EcGroup {
        EcGroup::from_curve_name(if self == P256 { Nid::X9_62_PRIME256V1 } else { Nid::SECP256K1 }).unwrap()
    }
    pub fn sign_alg(self) -> &'static str {
        match self {
            Ed25519 => "EdDSA",
            P256 => "ES256",
            K256 => "ES256K",
            X25519 => "none",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Key {
    pub crv: Crv,
    /// 32 bytes.
    pub sk: Vec<u8>,
    /// x, or x || y.
    pub pk: Vec<u8>,
}

fn pad32(b: Vec<u8>) -> Vec<u8> {
    let mut v = vec![0; 32 - b.len()];
    v.extend(b);
    v
}

fn xy(g: &EcGroup, p: &openssl::ec::EcPointRef) -> Vec<u8> {
    let mut ctx = BigNumContext::new().unwrap();
    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    p.affine_coordinates(g, &mut x, &mut y, &mut ctx).unwrap();
    let mut v = pad32(x.to_vec());
    v.extend(pad32(y.to_vec()));
    v
}

impl Key {
    pub fn gen(r: &mut Rng, crv: Crv) -> Key {
        loop {
            if let Some(k) = Key::from_secret(crv, &r.bytes(32)) {
                return k;
            }
        }
    }
    pub fn from_secret(crv: Crv, sk: &[u8]) -> Option<Key> {
        let pk = match crv {
            X25519 | Ed25519 => {
                let id = if crv == X25519 { Id::X25519 } else { Id::ED25519 };
                PKey::private_key_from_raw_bytes(sk, id).ok()?.raw_public_key().ok()?
            }
            _ => {
                let g = crv.group();
                let mut ctx = BigNumContext::new().unwrap();
                let n = BigNum::from_slice(sk).unwrap();
                let mut order = BigNum::new().unwrap();
                g.order(&mut order, &mut ctx).unwrap();
                if n >= order || n.num_bits() == 0 {
                    return None;
                }
                let mut p = EcPoint::new(&g).unwrap();
                p.mul_generator2(&g, &n, &mut ctx).unwrap();
                xy(&g, &p)
            }
        };
        Some(Key { crv, sk: sk.to_vec(), pk })
    }
    pub fn public(&self) -> Key {
        Key { crv: self.crv, sk: vec![], pk: self.pk.clone() }
    }
    pub fn jwk(&self, private: bool) -> Value {
        let mut v = json!({"kty": self.crv.kty(), "crv": self.crv.name(), "x": b64(&self.pk[..32])});
        if self.pk.len() == 64 {
            v["y"] = json!(b64(&self.pk[32..]));
        }
        if private {
            v["d"] = json!(b64(&self.sk));
        }
        v
    }
    pub fn from_jwk(v: &Value) -> Option<Key> {
        let crv = match (v["kty"].as_str()?, v["crv"].as_str()?) {
            ("OKP", "X25519") => X25519,
            ("OKP", "Ed25519") => Ed25519,
            ("EC", "P-256") => P256,
            ("EC", "secp256k1") => K256,
            _ => return None,
        };
        let mut pk = unb64(v["x"].as_str()?)?;
        if crv.kty() == "EC" {
            pk.extend(unb64(v["y"].as_str()?)?);
        }
        if pk.len() != if crv.kty() == "EC" { 64 } else { 32 } {
            return None;
        }
        let sk = match v.get("d") {
            Some(d) => unb64(d.as_str()?)?,
            None => vec![],
        };
        Some(Key { crv, sk, pk })
    }
    fn ec_pub(&self) -> Option<EcKey<Public>> {
        let g = self.crv.group();
        EcKey::from_public_key_affine_coordinates(&g, &*BigNum::from_slice(&self.pk[..32]).ok()?, &*BigNum::from_slice(&self.pk[32..]).ok()?).ok()
    }
    fn ec_priv(&self) -> Option<EcKey<Private>> {
        let g = self.crv.group();
        EcKey::from_private_components(&g, &*BigNum::from_slice(&self.sk).ok()?, self.ec_pub()?.public_key()).ok()
    }
    fn pkey_pub(&self) -> Option<PKey<Public>> {
        match self.crv {
            X25519 => PKey::public_key_from_raw_bytes(&self.pk, Id::X25519).ok(),
            Ed25519 => PKey::public_key_from_raw_bytes(&self.pk, Id::ED25519).ok(),
            _ => PKey::from_ec_key(self.ec_pub()?).ok(),
        }
    }
    fn pkey_priv(&self) -> Option<PKey<Private>> {
        match self.crv {
            X25519 => PKey::private_key_from_raw_bytes(&self.sk, Id::X25519).ok(),
            Ed25519 => PKey::private_key_from_raw_bytes(&self.sk, Id::ED25519).ok(),
            _ => PKey::from_ec_key(self.ec_priv()?).ok(),
        }
    }
    pub fn ecdh(&self, peer: &Key) -> Option<Vec<u8>> {
        if self.crv != peer.crv {
            return None;
        }
        let sk = self.pkey_priv()?;
        let pk = peer.pkey_pub()?;
        let mut d = Deriver::new(&sk).ok()?;
        d.set_peer(&pk).ok()?;
        d.derive_to_vec().ok()
    }
    pub fn sign(&self, m: &[u8]) -> Vec<u8> {
        match self.crv {
            Ed25519 => Signer::new_without_digest(&self.pkey_priv().unwrap()).unwrap().sign_oneshot_to_vec(m).unwrap(),
            P256 | K256 => {
                let s = EcdsaSig::sign(&sha256(m), &self.ec_priv().unwrap()).unwrap();
                let mut v = pad32(s.r().to_vec());
                let mut sv = s.s().to_owned().unwrap();
                if self.crv == K256 {
                    // verifiers of ES256K commonly take only the lower of the two equivalent s
                    let mut ctx = BigNumContext::new().unwrap();
                    let mut n = BigNum::new().unwrap();
                    self.crv.group().order(&mut n, &mut ctx).unwrap();
                    let mut o = BigNum::new().unwrap();
                    o.checked_sub(&n, &sv).unwrap();
                    if o < sv {
                        sv = o;
                    }
                }
                v.extend(pad32(sv.to_vec()));
                v
            }
            X25519 => vec![],
        }
    }
    pub fn verify(&self, m: &[u8], sig: &[u8]) -> bool {
        match self.crv {
            Ed25519 => {
                let k = match self.pkey_pub() {
                    Some(k) => k,
                    None => return false,
                };
                let mut v = openssl::sign::Verifier::new_without_digest(&k).unwrap();
                v.verify_oneshot(sig, m).unwrap_or(false)
            }
            P256 | K256 => {
                if sig.len() != 64 {
                    return false;
                }
                let s = EcdsaSig::from_private_components(BigNum::from_slice(&sig[..32]).unwrap(), BigNum::from_slice(&sig[32..]).unwrap()).unwrap();
                s.verify(&sha256(m), &self.ec_pub().unwrap()).unwrap_or(false)
            }
            X25519 => false,
        }
    }
}

/// NIST SP 800-56A Concat KDF with SHA-256 as RFC 7518 section 4.6.2 uses it, 256 bits of output.
pub fn concat_kdf(z: &[u8], alg: &[u8], apu: &[u8], apv: &[u8], tag: Option<&[u8]>) -> Vec<u8> {
    let mut m = vec![0, 0, 0, 1];
    m.extend(z);
    for p in [alg, apu, apv] {
        m.extend((p.len() as u32).to_be_bytes());
        m.extend(p);
    }
    m.extend(256u32.to_be_bytes());
    if let Some(t) = tag {
        m.extend((t.len() as u32).to_be_bytes());
        m.extend(t);
    }
    sha256(&m)
}

pub fn kw_wrap(kek: &[u8], k: &[u8]) -> Vec<u8> {
    let key = openssl::aes::AesKey::new_encrypt(kek).unwrap();
    let mut out = vec![0; k.len() + 8];
    openssl::aes::wrap_key(&key, None, &mut out, k).unwrap();
    out
}
pub fn kw_unwrap(kek: &[u8], w: &[u8]) -> Option<Vec<u8>> {
    if w.len() < 24 || w.len() % 8 != 0 {
        return None;
    }
    let key = openssl::aes::AesKey::new_decrypt(kek).ok()?;
    let mut out = vec![0; w.len() - 8];
    openssl::aes::unwrap_key(&key, None, &mut out, w).ok()?;
    Some(out)
}

pub const ENCS: [&str; 3] = ["A256CBC-HS512", "XC20P", "A256GCM"];

pub fn cek_len(enc: &str) -> usize {
    if enc == "A256CBC-HS512" {
        64
    } else {
        32
    }
}
pub fn iv_len(enc: &str) -> usize {
    match enc {
        "A256CBC-HS512" => 16,
        "XC20P" => 24,
        _ => 12,
    }
}
pub fn tag_len(enc: &str) -> usize {
    if enc == "A256CBC-HS512" {
        32
    } else {
        16
    }
}

fn xsub(cek: &[u8], iv: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut n = vec![0; 4];
    n.extend(&iv[16..]);
    (askar_crypto::alg::chacha20::hchacha20(cek, &iv[..16]), n)
}

fn cbc(mode: Mode, key: &[u8], iv: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    let mut c = Crypter::new(Cipher::aes_256_cbc(), mode, key, Some(iv)).ok()?;
    let mut out = vec![0; data.len() + 32];
    let n = c.update(data, &mut out).ok()?;
    let m = c.finalize(&mut out[n..]).ok()?;
    out.truncate(n + m);
    Some(out)
}

pub fn encrypt(enc: &str, cek: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match enc {
        "A256CBC-HS512" => {
            let ct = cbc(Mode::Encrypt, &cek[32..], iv, pt).unwrap();
            let mut m = aad.to_vec();
            m.extend(iv);
            m.extend(&ct);
            m.extend((aad.len() as u64 * 8).to_be_bytes());
            let t = hmac512(&cek[..32], &m)[..32].to_vec();
            (ct, t)
        }
        "XC20P" => {
            let (k, n) = xsub(cek, iv);
            let mut t = vec![0; 16];
            let ct = encrypt_aead(Cipher::chacha20_poly1305(), &k, Some(&n), aad, pt, &mut t).unwrap();
            (ct, t)
        }
        _ => {
            let mut t = vec![0; 16];
            let ct = encrypt_aead(Cipher::aes_256_gcm(), cek, Some(iv), aad, pt, &mut t).unwrap();
            (ct, t)
        }
    }
}

pub fn decrypt(enc: &str, cek: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if cek.len() != cek_len(enc) || iv.len() != iv_len(enc) || tag.len() != tag_len(enc) {
        return None;
    }
    match enc {
        "A256CBC-HS512" => {
            let mut m = aad.to_vec();
            m.extend(iv);
            m.extend(ct);
            m.extend((aad.len() as u64 * 8).to_be_bytes());
            if &hmac512(&cek[..32], &m)[..32] != tag {
                return None;
            }
            cbc(Mode::Decrypt, &cek[32..], iv, ct)
        }
        "XC20P" => {
            let (k, n) = xsub(cek, iv);
            decrypt_aead(Cipher::chacha20_poly1305(), &k, Some(&n), aad, ct, tag).ok()
        }
        "A256GCM" => decrypt_aead(Cipher::aes_256_gcm(), cek, Some(iv), aad, ct, tag).ok(),
        _ => None,
    }
}
