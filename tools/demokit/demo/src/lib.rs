//! What the demonstrations share.
pub use askar_crypto;
pub use didcomm;
pub use didcomm::{
    did::{resolvers::ExampleDIDResolver, DIDDoc, DIDResolver, Service, VerificationMethod},
    error::{Error, ErrorKind, Result},
    secrets::{resolvers::ExampleSecretsResolver, Secret, SecretsResolver},
    test_vectors as tv, *,
};
pub use serde_json::{json, Value};
use std::{future::Future, sync::Arc, task::*};

struct W;
impl Wake for W {
    fn wake(self: Arc<Self>) {}
}
pub fn waker() -> Waker {
    Waker::from(Arc::new(W))
}
pub fn on<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = waker();
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
    }
}
pub fn dids() -> ExampleDIDResolver {
    docs(vec![])
}
/// The test parties, with these documents first.
pub fn docs(mut more: Vec<DIDDoc>) -> ExampleDIDResolver {
    more.extend([
        tv::ALICE_DID_DOC.clone(),
        tv::BOB_DID_DOC.clone(),
        tv::CHARLIE_DID_DOC.clone(),
        tv::MEDIATOR1_DID_DOC.clone(),
        tv::MEDIATOR2_DID_DOC.clone(),
        tv::MEDIATOR3_DID_DOC.clone(),
    ]);
    ExampleDIDResolver::new(more)
}
pub fn alice() -> ExampleSecretsResolver {
    ExampleSecretsResolver::new(tv::ALICE_SECRETS.clone())
}
pub fn bob() -> ExampleSecretsResolver {
    ExampleSecretsResolver::new(tv::BOB_SECRETS.clone())
}
pub fn message() -> Message {
    Message::build("1".into(), "t/1".into(), json!({"a": "b"})).from(tv::ALICE_DID.into()).to(tv::BOB_DID.into()).finalize()
}
/// Straight to the recipient.
pub fn direct() -> PackEncryptedOptions {
    PackEncryptedOptions { forward: false, ..PackEncryptedOptions::default() }
}
pub fn b64(b: impl AsRef<[u8]>) -> String {
    base64::encode_config(b, base64::URL_SAFE_NO_PAD)
}
pub fn unb64(s: &str) -> Vec<u8> {
    base64::decode_config(s, base64::URL_SAFE_NO_PAD).unwrap()
}
pub fn protected(packed: &str) -> Value {
    let v: Value = serde_json::from_str(packed).unwrap();
    serde_json::from_slice(&unb64(v["protected"].as_str().unwrap())).unwrap()
}
/// An X25519 key: its JWK without and with the secret.
pub fn x25519() -> (Value, Value) {
    use askar_crypto::{alg::x25519::X25519KeyPair, jwk::ToJwk, random, repr::{KeyGen, KeySecretBytes}};
    let k = X25519KeyPair::generate(&mut random::default_rng()).ok().unwrap();
    let p: Value = serde_json::from_str(&k.to_jwk_public(None).ok().unwrap()).unwrap();
    let mut s = p.clone();
    k.with_secret_bytes(|b| s["d"] = json!(b64(b.unwrap())));
    (p, s)
}
/// A document of key agreement keys, and their secrets.
pub fn party(did: &str, kids: &[&str]) -> (DIDDoc, Vec<Secret>) {
    let mut vms = vec![];
    let mut secrets = vec![];
    for k in kids {
        let (p, s) = x25519();
        vms.push(json!({"id": k, "type": "JsonWebKey2020", "controller": did, "publicKeyJwk": p}));
        secrets.push(serde_json::from_value(json!({"id": k, "type": "JsonWebKey2020", "privateKeyJwk": s})).unwrap());
    }
    let d = serde_json::from_value(json!({"id": did, "keyAgreement": kids, "authentication": [], "verificationMethod": vms, "service": []})).unwrap();
    (d, secrets)
}
/// The property is broken.
pub fn broken(what: &str) -> ! {
    println!("BROKEN: {what}");
    std::process::exit(1)
}
pub fn require(ok: bool, what: &str) {
    if !ok {
        broken(what)
    }
}
/// An anoncrypt envelope made by hand: recipients are (kid, public jwk); apv is what the header shall claim.
pub fn craft_anon(to: &[(&str, &Value)], apv: &[u8], plaintext: &str) -> String {
    use askar_crypto::{
        alg::{aes::{A256CbcHs512, A256Kw, AesKey}, x25519::X25519KeyPair},
        buffer::SecretBytes,
        encrypt::KeyAeadInPlace,
        jwk::{FromJwk, ToJwk},
        kdf::{ecdh_es::EcdhEs, FromKeyDerivation},
        random,
        repr::{KeyGen, ToSecretBytes},
    };
    let mut rng = random::default_rng();
    let cek = AesKey::<A256CbcHs512>::generate(&mut rng).ok().unwrap();
    let epk = X25519KeyPair::generate(&mut rng).ok().unwrap();
    let alg = "ECDH-ES+A256KW";
    let epk_jwk: Value = serde_json::from_str(&epk.to_jwk_public(None).ok().unwrap()).unwrap();
    let prot = b64(json!({"typ": "application/didcomm-encrypted+json", "alg": alg, "enc": "A256CBC-HS512", "apv": b64(apv), "epk": epk_jwk}).to_string());
    let iv = [7u8; 16];
    let mut buf = SecretBytes::from_slice(plaintext.as_bytes());
    let n = cek.encrypt_in_place(&mut buf, &iv, prot.as_bytes()).ok().unwrap();
    let mut rs = vec![];
    for (kid, jwk) in to {
        let k = X25519KeyPair::from_jwk(&jwk.to_string()).ok().unwrap();
        let kw = AesKey::<A256Kw>::from_key_derivation(EcdhEs::new(&epk, &k, alg.as_bytes(), &[], apv, false)).ok().unwrap();
        let mut kb = SecretBytes::with_capacity(80);
        cek.write_secret_bytes(&mut kb).ok().unwrap();
        kw.encrypt_in_place(&mut kb, &[], &[]).ok().unwrap();
        rs.push(json!({"header": {"kid": kid}, "encrypted_key": b64(kb.as_ref())}));
    }
    json!({"protected": prot, "recipients": rs, "iv": b64(iv), "ciphertext": b64(&buf.as_ref()[..n]), "tag": b64(&buf.as_ref()[n..])}).to_string()
}
/// The SHA-256 apv of these kids.
pub fn apv_of(kids: &[&str]) -> Vec<u8> {
    use sha2::{Digest, Sha256};
    let mut k = kids.to_vec();
    k.sort();
    Sha256::digest(k.join(".").as_bytes()).to_vec()
}
