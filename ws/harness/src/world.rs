//! Parties with keys in every representation, and resolvers that log, suspend and fail on demand.
use crate::dc::{
    did::{DIDCommMessagingService, DIDDoc, DIDResolver, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType},
    error::{err_msg, ErrorKind, Result},
    secrets::{Secret, SecretMaterial, SecretType, SecretsResolver},
};
use crate::refc::{Crv, Key};
use async_trait::async_trait;
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
};
use vcommon::{fnv, gen, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Repr {
    Jwk,
    B58,
    Multi,
}
pub const REPRS: [Repr; 3] = [Repr::Jwk, Repr::B58, Repr::Multi];

pub fn varint(mut n: u32) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

pub fn multibase(codec: u32, bytes: &[u8]) -> String {
    let mut v = varint(codec);
    v.extend(bytes);
    format!("z{}", bs58::encode(v).into_string())
}

pub fn public_material(k: &Key, repr: Repr) -> (VerificationMethodType, VerificationMaterial) {
    use VerificationMethodType::*;
    match (k.crv, repr) {
        (Crv::X25519, Repr::B58) => (X25519KeyAgreementKey2019, VerificationMaterial::Base58 { public_key_base58: bs58::encode(&k.pk).into_string() }),
        (Crv::X25519, Repr::Multi) => (X25519KeyAgreementKey2020, VerificationMaterial::Multibase { public_key_multibase: multibase(0xec, &k.pk) }),
        (Crv::Ed25519, Repr::B58) => (Ed25519VerificationKey2018, VerificationMaterial::Base58 { public_key_base58: bs58::encode(&k.pk).into_string() }),
        (Crv::Ed25519, Repr::Multi) => (Ed25519VerificationKey2020, VerificationMaterial::Multibase { public_key_multibase: multibase(0xed, &k.pk) }),
        _ => (JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: k.jwk(false) }),
    }
}

pub fn secret_material(k: &Key, repr: Repr) -> (SecretType, SecretMaterial) {
    use SecretType::*;
    let pair = || {
        let mut v = k.sk.clone();
        v.extend(&k.pk);
        v
    };
    match (k.crv, repr) {
        (Crv::X25519, Repr::B58) => (X25519KeyAgreementKey2019, SecretMaterial::Base58 { private_key_base58: bs58::encode(&k.sk).into_string() }),
        (Crv::X25519, Repr::Multi) => (X25519KeyAgreementKey2020, SecretMaterial::Multibase { private_key_multibase: multibase(0x1302, &k.sk) }),
        (Crv::Ed25519, Repr::B58) => (Ed25519VerificationKey2018, SecretMaterial::Base58 { private_key_base58: bs58::encode(pair()).into_string() }),
        (Crv::Ed25519, Repr::Multi) => (Ed25519VerificationKey2020, SecretMaterial::Multibase { private_key_multibase: multibase(0x1300, &pair()) }),
        _ => (JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: k.jwk(true) }),
    }
}

#[derive(Clone, Debug)]
pub struct KeyEntry {
    pub kid: String,
    pub key: Key,
    pub repr: Repr,
    pub srepr: Repr,
}

impl KeyEntry {
    pub fn gen(r: &mut Rng, kid: String, crv: Crv) -> KeyEntry {
        KeyEntry { kid, key: Key::gen(r, crv), repr: *r.pick(&REPRS), srepr: *r.pick(&REPRS) }
    }
    pub fn vm(&self, controller: &str) -> VerificationMethod {
        let (type_, mut verification_material) = public_material(&self.key, self.repr);
        let mut r = Rng::new(fnv(self.kid.as_bytes()));
        if let VerificationMaterial::JWK { public_key_jwk } = &mut verification_material {
            more_members(&mut r, &self.kid, self.key.crv, public_key_jwk);
        }
        // who controls a key does not matter here
        let controller = if r.chance(1, 8) { format!("did:example:controller{}", r.below(3)) } else { controller.into() };
        VerificationMethod { id: self.kid.clone(), type_, controller, verification_material }
    }
    pub fn secret(&self) -> Secret {
        let (type_, mut secret_material) = secret_material(&self.key, self.srepr);
        if let SecretMaterial::JWK { private_key_jwk } = &mut secret_material {
            more_members(&mut Rng::new(fnv(self.kid.as_bytes()) ^ 1), &self.kid, self.key.crv, private_key_jwk);
        }
        Secret { id: self.kid.clone(), type_, secret_material }
    }
}

/// A JWK may say more about a key than what it is.
fn more_members(r: &mut Rng, kid: &str, crv: Crv, v: &mut serde_json::Value) {
    if !r.chance(1, 3) {
        return;
    }
    let agrees = matches!(crv, Crv::X25519);
    if r.bool() {
        v["kid"] = if r.bool() { kid.into() } else { "1".into() };
    }
    if r.bool() && crv != Crv::P256 {
        v["use"] = if agrees { "enc" } else { "sig" }.into();
    }
    if r.bool() && crv != Crv::P256 {
        v["key_ops"] = if agrees { serde_json::json!(["deriveKey"]) } else { serde_json::json!(["verify"]) };
    }
    match crv {
        Crv::X25519 if r.bool() => v["alg"] = (*r.pick(&["ECDH-ES", "ECDH-ES+A256KW", "ECDH-1PU+A256KW"])).into(),
        Crv::Ed25519 if r.bool() => v["alg"] = "EdDSA".into(),
        Crv::K256 if r.bool() => v["alg"] = "ES256K".into(),
        _ => {}
    }
    if r.bool() {
        v["x-note"] = serde_json::json!({"a": [1]});
    }
}

#[derive(Clone, Debug)]
pub struct Party {
    pub did: String,
    pub ka: Vec<KeyEntry>,
    pub auth: Vec<KeyEntry>,
    /// In the document's verification methods only.
    pub extra: Vec<KeyEntry>,
    pub services: Vec<Service>,
    /// Order in which the document lists its verification methods.
    pub vm_seed: u64,
}

impl Party {
    pub fn doc(&self) -> DIDDoc {
        let mut vms: Vec<VerificationMethod> = vec![];
        for k in self.ka.iter().chain(&self.auth).chain(&self.extra) {
            // a key may serve both purposes
            if !vms.iter().any(|v| v.id == k.kid) {
                vms.push(k.vm(&self.did));
            }
        }
        let mut key_agreement: Vec<String> = self.ka.iter().map(|k| k.kid.clone()).collect();
        let mut authentication: Vec<String> = self.auth.iter().map(|k| k.kid.clone()).collect();
        let mut r = Rng::new(self.vm_seed ^ 0x5a);
        if r.chance(1, 5) {
            // keys of kinds the library does not know, among those it does
            for i in 0..r.range(1, 3) {
                let id = format!("{}#unknown-{i}", self.did);
                let (type_, verification_material) = unknown_key(&mut r);
                vms.push(VerificationMethod { id: id.clone(), type_, controller: self.did.clone(), verification_material });
                let l = if r.chance(2, 3) { &mut key_agreement } else { &mut authentication };
                if l.is_empty() {
                    continue;
                }
                let at = r.below(l.len() + 1);
                l.insert(at, id);
            }
        }
        if r.chance(1, 6) {
            // another's key under the same fragment
            let mut k = r.pick(&self.all().cloned().collect::<Vec<_>>()).clone();
            if let Some((_, f)) = k.kid.split_once('#') {
                let d = format!("{}{}", self.did, r.pick(&["2", ":x", "/"]));
                k.kid = format!("{d}#{f}");
                k.key = Key::gen(&mut r, k.key.crv);
                vms.push(k.vm(&d));
            }
        }
        Rng::new(self.vm_seed).shuffle(&mut vms);
        DIDDoc {
            id: self.did.clone(),
            key_agreement,
            authentication,
            verification_method: vms,
            service: self.services.clone(),
        }
    }
    pub fn all(&self) -> impl Iterator<Item = &KeyEntry> {
        self.ka.iter().chain(&self.auth).chain(&self.extra)
    }
    pub fn key(&self, kid: &str) -> Option<&KeyEntry> {
        self.all().find(|k| k.kid == kid)
    }
    /// The key agreement keys of one curve in document order.
    pub fn ka_of(&self, c: Crv) -> Vec<&KeyEntry> {
        self.ka.iter().filter(|k| k.key.crv == c).collect()
    }
}

fn unknown_key(r: &mut Rng) -> (VerificationMethodType, VerificationMaterial) {
    use VerificationMethodType::*;
    let b = r.bytes(48);
    let jwk = |kty: &str, crv: &str| VerificationMaterial::JWK { public_key_jwk: serde_json::json!({"kty": kty, "crv": crv, "x": crate::refc::b64(&b)}) };
    match r.below(7) {
        0 => (JsonWebKey2020, jwk("EC", "P-384")),
        1 => (JsonWebKey2020, jwk("OKP", *r.pick(&["X448", "Ed448"]))),
        2 => (JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: serde_json::json!({"kty": "RSA", "n": "AQAB", "e": "AQAB"}) }),
        3 => (EcdsaSecp256k1VerificationKey2019, jwk("EC", "secp256k1")),
        4 | 5 => (Other, VerificationMaterial::Base58 { public_key_base58: bs58::encode(&b).into_string() }),
        _ => (JsonWebKey2020, VerificationMaterial::Multibase { public_key_multibase: multibase(0xec, &b[..32]) }),
    }
}

pub fn did(r: &mut Rng) -> String {
    let n = match r.below(20) {
        0 => r.range(150, 900),
        1 | 2 => r.range(24, 80),
        3..=9 => r.range(6, 20),
        _ => 9,
    };
    let w = gen::word(r, n);
    match r.below(5) {
        0 => format!("did:example:{w}"),
        1 => format!("did:web:{}.example.com:user:{w}", gen::word(r, 3).to_lowercase()),
        2 => format!("did:peer:2.Ez6L{w}"),
        3 => format!("did:x:{w}_-.%41"),
        _ => format!("did:key:z6{w}"),
    }
}

pub fn kid(r: &mut Rng, did: &str, n: usize) -> String {
    let kinds = if r.chance(1, 4) { 9 } else { 4 };
    match r.below(kinds) {
        4 => format!("{did}#{}", did.rsplit(':').next().unwrap()) + &n.to_string(),
        // a digit or letter alone
        8 => format!("{did}#{}", char::from_digit(n as u32 % 36, 36).unwrap()),
        5 => {
            let l = r.range(40, 300);
            format!("{did}#{}{n}", gen::word(r, l))
        }
        6 => format!("{did}#did:key:{}{n}", gen::word(r, 5)),
        7 => format!("{did}#{}{n}", r.pick(&["~", "a/b?c=", "%C3%A9", "!$&'()*+,;=:@", "x=1&y=", "key_"])),
        0 => format!("{did}#key-{n}"),
        1 => format!("{did}#{}{n}", gen::word(r, 4)),
        2 => format!("{did}#{}.{n}", r.below(9)),
        _ => format!("{did}#K{n}-{}", gen::word(r, 2)),
    }
}

/// A party with `ka` key agreement keys over the given curves and some authentication keys.
pub fn party(r: &mut Rng, curves: &[Crv]) -> Party {
    let d = did(r);
    party_as(r, d, curves)
}

/// Another identifier that is easily taken for `s`: longer, shorter or in another case, never without `keep`.
pub fn alike(r: &mut Rng, s: &str, keep: usize) -> String {
    let mut t = s.to_string();
    match r.below(6) {
        0 => t.push(*r.pick(&['0', '1', 'a', 'Z', '_'])),
        1 => t.push_str(*r.pick(&["-1", ".x", "%20", ":1", "10"])),
        2 if t.len() > keep + 1 => {
            t.pop();
        }
        3 => t = format!("{}{}", &s[..keep], s[keep..].to_ascii_uppercase()),
        4 => t = format!("{}{}", &s[..keep], s[keep..].to_ascii_lowercase()),
        _ => {
            let i = r.range(keep, t.len());
            t.insert(i, *r.pick(&['0', 'k']));
        }
    }
    t
}

pub fn did_alike(r: &mut Rng, d: &str) -> String {
    let keep = d.rfind(':').unwrap() + 1;
    alike(r, d, keep)
}

pub fn party_as(r: &mut Rng, d: String, curves: &[Crv]) -> Party {
    let mut n = r.below(3);
    let near = r.chance(1, 4);
    let mut kids: Vec<String> = vec![];
    let mut next = |r: &mut Rng, c: Crv| {
        n += 1;
        let mut k = kid(r, &d, n);
        if near && !kids.is_empty() && r.chance(2, 3) {
            let o = r.pick(&kids).clone();
            let a = alike(r, &o, d.len() + 1);
            if a.len() > d.len() + 1 && !kids.contains(&a) {
                k = a;
            }
        }
        while kids.contains(&k) {
            n += 10;
            k = kid(r, &d, n);
        }
        kids.push(k.clone());
        KeyEntry::gen(r, k, c)
    };
    let ka: Vec<_> = curves.iter().map(|c| next(r, *c)).collect();
    let na = r.range(1, 3);
    let auth: Vec<_> = (0..na)
        .map(|_| {
            let c = *r.pick(&[Crv::Ed25519, Crv::P256, Crv::K256]);
            next(r, c)
        })
        .collect();
    let extra = if r.chance(1, 3) {
        let c = *r.pick(&[Crv::Ed25519, Crv::P256, Crv::X25519]);
        vec![next(r, c)]
    } else {
        vec![]
    };
    Party { did: d, ka, auth, extra, services: vec![], vm_seed: r.u64() }
}

/// One key for both purposes.
pub fn dual(r: &mut Rng, p: &mut Party) {
    if let Some(k) = p.ka.iter().find(|k| k.key.crv == Crv::P256).cloned() {
        let i = r.below(p.auth.len() + 1);
        p.auth.insert(i, k);
    }
}

pub fn curves(r: &mut Rng) -> Vec<Crv> {
    let n = if r.chance(1, 60) { if r.chance(1, 6) { r.range(20, 40) } else { r.range(5, 14) } } else { *r.pick(&[1, 1, 2, 3, 4]) };
    match r.below(4) {
        0 => vec![Crv::X25519; n],
        1 => vec![Crv::P256; n],
        _ => (0..n).map(|_| *r.pick(&[Crv::X25519, Crv::P256])).collect(),
    }
}

pub fn service(id: String, uri: String, accept: Option<Vec<String>>, routing_keys: Vec<String>) -> Service {
    Service { id, service_endpoint: ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri, accept, routing_keys } } }
}

// ---- resolvers ----

#[derive(Clone, Debug)]
pub enum Fault {
    Err(ErrorKind),
    /// The resolver answers that there is no such thing.
    Nothing,
}

#[derive(Default)]
pub struct Ctl {
    pub log: Mutex<Vec<String>>,
    pub calls: AtomicUsize,
    /// Suspensions per call.
    pub suspend: AtomicUsize,
    pub fault: Mutex<Option<(usize, Fault)>>,
    pub fired: AtomicUsize,
}

impl Ctl {
    async fn enter(&self, what: String) -> Result<bool> {
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        assert!(n < 50_000, "one operation asks its resolvers without end");
        self.log.lock().unwrap().push(what);
        let s = self.suspend.load(Ordering::SeqCst);
        if s > 0 {
            vcommon::suspend(s).await;
        }
        let f = self.fault.lock().unwrap().clone();
        match f {
            Some((i, Fault::Err(k))) if i == n => {
                self.fired.fetch_add(1, Ordering::SeqCst);
                Err(err_msg(k, "injected resolver failure"))
            }
            Some((i, Fault::Nothing)) if i == n => {
                self.fired.fetch_add(1, Ordering::SeqCst);
                Ok(false)
            }
            _ => Ok(true),
        }
    }
    pub fn reset(&self) {
        self.calls.store(0, Ordering::SeqCst);
        self.fired.store(0, Ordering::SeqCst);
        self.log.lock().unwrap().clear();
    }
}

#[derive(Clone)]
pub struct Dr {
    pub docs: Arc<HashMap<String, DIDDoc>>,
    pub ctl: Arc<Ctl>,
}

impl Dr {
    pub fn new<'a>(p: impl IntoIterator<Item = &'a Party>) -> Dr {
        Dr::of(p.into_iter().map(|p| p.doc()))
    }
    pub fn of(d: impl IntoIterator<Item = DIDDoc>) -> Dr {
        Dr { docs: Arc::new(d.into_iter().map(|d| (d.id.clone(), d)).collect()), ctl: Default::default() }
    }
    pub fn with(&self, ctl: &Arc<Ctl>) -> Dr {
        Dr { docs: self.docs.clone(), ctl: ctl.clone() }
    }
}

#[cfg_attr(feature = "local", async_trait(?Send))]
#[cfg_attr(not(feature = "local"), async_trait)]
impl DIDResolver for Dr {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        if !self.ctl.enter(format!("resolve {did}")).await? {
            return Ok(None);
        }
        Ok(self.docs.get(did).cloned())
    }
}

#[derive(Clone)]
pub struct Sr {
    pub secrets: Arc<HashMap<String, Secret>>,
    pub ctl: Arc<Ctl>,
    /// Report found ids in reverse of the asked order.
    pub reverse: bool,
}

impl Sr {
    pub fn none() -> Sr {
        Sr::of(vec![])
    }
    pub fn of(s: impl IntoIterator<Item = Secret>) -> Sr {
        Sr { secrets: Arc::new(s.into_iter().map(|s| (s.id.clone(), s)).collect()), ctl: Default::default(), reverse: false }
    }
    pub fn keys<'a>(k: impl IntoIterator<Item = &'a KeyEntry>) -> Sr {
        Sr::of(k.into_iter().map(|k| k.secret()))
    }
    pub fn party(p: &Party) -> Sr {
        Sr::keys(p.all())
    }
    pub fn with(&self, ctl: &Arc<Ctl>) -> Sr {
        Sr { secrets: self.secrets.clone(), ctl: ctl.clone(), reverse: self.reverse }
    }
    pub fn reversed(mut self, r: bool) -> Sr {
        self.reverse = r;
        self
    }
    pub fn holds(&self, kid: &str) -> bool {
        self.secrets.contains_key(kid)
    }
}

#[cfg_attr(feature = "local", async_trait(?Send))]
#[cfg_attr(not(feature = "local"), async_trait)]
impl SecretsResolver for Sr {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>> {
        if !self.ctl.enter(format!("get {id}")).await? {
            return Ok(None);
        }
        Ok(self.secrets.get(id).cloned())
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        if !self.ctl.enter(format!("find {}", ids.join(","))).await? {
            return Ok(vec![]);
        }
        let mut v: Vec<&'a str> = ids.iter().copied().filter(|i| self.secrets.contains_key(*i)).collect();
        if self.reverse {
            v.reverse();
        }
        Ok(v)
    }
}

/// Operations under test share the property that one secret store may hold several parties' keys.
pub fn run<T>(f: impl std::future::Future<Output = Result<T>>) -> std::result::Result<Result<T>, vcommon::Abnormal> {
    vcommon::run(f)
}
