//! C17: one key in every representation, and material that is no key.
use crate::{
    dc::{
        algorithms::AuthCryptAlg,
        did::{DIDDoc, VerificationMaterial, VerificationMethod, VerificationMethodType as VT},
        error::Result,
        secrets::{Secret, SecretMaterial, SecretType as ST},
        FromPrior, Message, PackEncryptedOptions, UnpackOptions,
    },
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use serde_json::{json, Value};
use vcommon::{gen, Abnormal, Obs, Rng, Runner};

type Out<T> = std::result::Result<Result<T>, Abnormal>;

/// A key, sometimes one whose bytes start with zeros, which encodings are prone to lose.
fn key(r: &mut Rng, crv: Crv) -> (Key, &'static str) {
    match r.below(4) {
        0 => {
            let n = r.range(1, 3);
            let mut sk = r.bytes(32);
            sk[..n].fill(0);
            (Key::from_secret(crv, &sk).unwrap(), "secret starts with zeros")
        }
        1 => {
            for _ in 0..600 {
                let k = Key::gen(r, crv);
                if k.pk[0] == 0 || k.pk.len() == 64 && k.pk[32] == 0 {
                    return (k, "public starts with zeros");
                }
            }
            (Key::gen(r, crv), "plain")
        }
        _ => (Key::gen(r, crv), "plain"),
    }
}

/// A JWK with members in another order and members that do not matter.
fn decorate(r: &mut Rng, v: &mut Value) {
    if r.bool() {
        for (k, x) in [("use", json!("enc")), ("kid", json!(gen::word(r, 4))), ("ext", json!(true)), ("key_ops", json!(["deriveBits"])), ("alg", json!(if v["crv"] == "Ed25519" { "EdDSA" } else { "ECDH-ES+A256KW" }))] {
            if r.chance(1, 3) {
                v[k] = x;
            }
        }
    }
}

fn vm(r: &mut Rng, kid: &str, k: &Key, repr: Repr) -> VerificationMethod {
    let (type_, mut m) = public_material(k, repr);
    if let VerificationMaterial::JWK { public_key_jwk } = &mut m {
        decorate(r, public_key_jwk);
    }
    VerificationMethod { id: kid.into(), type_, controller: kid.split('#').next().unwrap().into(), verification_material: m }
}

fn secret(r: &mut Rng, kid: &str, k: &Key, repr: Repr) -> Secret {
    let (type_, mut m) = secret_material(k, repr);
    if let SecretMaterial::JWK { private_key_jwk } = &mut m {
        decorate(r, private_key_jwk);
    }
    Secret { id: kid.into(), type_, secret_material: m }
}

fn doc(ka: &[VerificationMethod], auth: &[VerificationMethod]) -> DIDDoc {
    let id = ka.first().or(auth.first()).unwrap().controller.clone();
    DIDDoc {
        id,
        key_agreement: ka.iter().map(|v| v.id.clone()).collect(),
        authentication: auth.iter().map(|v| v.id.clone()).collect(),
        verification_method: ka.iter().chain(auth).cloned().collect(),
        service: vec![],
    }
}

pub fn popts(r: &mut Rng) -> PackEncryptedOptions {
    PackEncryptedOptions { protect_sender: r.bool(), forward: r.bool(), forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: r.pick(&ANON).clone() }
}

pub fn encrypt(m: &Message, to: &str, from: Option<&str>, sign: Option<&str>, dr: &Dr, sr: &Sr, o: &PackEncryptedOptions) -> Out<String> {
    crate::world::run(async { Ok(m.pack_encrypted(to, from, sign, dr, sr, o).await?.0) })
}

fn names(r: &mut Rng) -> (String, String) {
    let a = did(r);
    loop {
        let b = did(r);
        if a != b {
            return (a, b);
        }
    }
}

fn same_key(r: &mut Rng, obs: &mut Obs) {
    let (a, b) = names(r);
    let (ak, ask, bk) = (format!("{a}#k1"), format!("{a}#s1"), format!("{b}#k1"));
    let kc = if r.chance(2, 3) { Crv::X25519 } else { Crv::P256 };
    let sc = *r.pick(&[Crv::Ed25519, Crv::Ed25519, Crv::P256, Crv::K256]);
    let (ka, kind_a) = key(r, kc);
    let (kb, kind_b) = key(r, kc);
    let (ks, kind_s) = key(r, sc);
    let mut msg = gmsg::message(r);
    msg.attachments = None;
    msg.from = None;
    msg.to = None;
    msg.from_prior = None;
    // each side sees each key in a representation of its own
    let mut side = |r: &mut Rng| -> (Dr, Vec<Repr>) {
        let v: Vec<Repr> = (0..3).map(|_| *r.pick(&REPRS)).collect();
        let da = doc(&[vm(r, &ak, &ka, v[0])], &[vm(r, &ask, &ks, v[1])]);
        let db = doc(&[vm(r, &bk, &kb, v[2])], &[]);
        (Dr::of([da, db]), v)
    };
    let (dr_p, v_p) = side(r);
    let (dr_u, v_u) = side(r);
    let sv: Vec<Repr> = (0..3).map(|_| *r.pick(&REPRS)).collect();
    let sr_a = Sr::of([secret(r, &ak, &ka, sv[0]), secret(r, &ask, &ks, sv[1])]);
    let sr_b = Sr::of([secret(r, &bk, &kb, sv[2])]);
    let o = popts(r);
    let how = r.below(5);
    let (from, sign) = match how {
        0 => (None, None),
        1 => (Some(a.as_str()), None),
        2 => (Some(a.as_str()), Some(a.as_str())),
        3 => (None, Some(ask.as_str())),
        _ => (None, None),
    };
    obs.eval(&format!("{how}{kc:?}{sc:?}{v_p:?}{v_u:?}{sv:?}"));
    obs.count(&format!("{kind_a}/{kind_b}/{kind_s}"));
    for (c, x, y) in [(kc, v_p[2], sv[2]), (sc, v_u[1], sv[1])] {
        obs.count(&format!("{c:?}: public {x:?}, secret {y:?}"));
    }
    let w = |g: Value| json!({"got": g, "keys": [ka.jwk(true), kb.jwk(true), ks.jwk(true)], "kinds": [kind_a, kind_b, kind_s], "packing documents": format!("{v_p:?}"), "unpacking documents": format!("{v_u:?}"), "secrets": format!("{sv:?}"), "operation": how});
    if how == 4 {
        let t = match crate::world::run(async { Ok(msg.pack_signed(&ask, &dr_p, &sr_a).await?.0) }) {
            Ok(Ok(t)) => t,
            e => return obs.violation("not signed", w(json!(format!("{e:?}")))),
        };
        if let Err(e) = verify_jws(&t, &|k| if k == ask { Some(ks.public()) } else { None }) {
            return obs.violation("signed with another key", w(json!(e)));
        }
        match unpack(&t, &dr_u, &Sr::none(), &UnpackOptions::default()) {
            Ok(Ok((m, _))) => {
                obs.check(gmsg::same(&m, &msg), "message changed", || w(json!(null)));
            }
            e => obs.violation("not verified", w(json!(format!("{e:?}")))),
        }
        // and a from_prior token
        let fp = FromPrior { iss: a.clone(), sub: b.clone(), aud: None, exp: None, nbf: None, iat: None, jti: None };
        match crate::world::run(fp.pack(Some(&ask), &dr_p, &sr_a)) {
            Ok(Ok((t, _))) => {
                let got = crate::world::run(FromPrior::unpack(&t, &dr_u));
                obs.check(matches!(&got, Ok(Ok((c, k))) if *k == ask && *c == fp), "token not verified", || w(json!(format!("{got:?}"))));
            }
            e => obs.violation("token not signed", w(json!(format!("{e:?}")))),
        }
        return;
    }
    let t = match encrypt(&msg, &b, from, sign, &dr_p, &sr_a, &o) {
        Ok(Ok(t)) => t,
        e => return obs.violation("not encrypted", w(json!(format!("{e:?}")))),
    };
    match open(&t, &bk, &kb, &|k| if k == ak { Some(ka.public()) } else { None }) {
        Ok(_) => {}
        Err(e) => return obs.violation("encrypted for another key", w(json!(e))),
    }
    match unpack(&t, &dr_u, &sr_b, &opts(r.bool(), r.bool())) {
        Ok(Ok((m, _))) => {
            obs.check(gmsg::same(&m, &msg), "message changed", || w(json!(null)));
        }
        e => obs.violation("not decrypted", w(json!(format!("{e:?}")))),
    }
}

/// A varint with needless continuation bytes.
fn long_varint(n: u32, extra: usize) -> Vec<u8> {
    let mut v = varint(n);
    let l = v.len();
    v[l - 1] |= 0x80;
    v.extend(std::iter::repeat(0x80).take(extra - 1));
    v.push(0);
    v
}

fn mb(b: &[u8]) -> String {
    format!("z{}", bs58::encode(b).into_string())
}

/// Bytes that do not decode, or decode to something of another length or codec.
fn bad_multibase(r: &mut Rng, codec: u32, body: &[u8]) -> (String, &'static str) {
    let good = |c: u32, b: &[u8]| {
        let mut v = varint(c);
        v.extend(b);
        v
    };
    match r.below(10) {
        0 => (mb(&good(codec, body))[1..].to_string(), "no prefix"),
        1 => (format!("{}{}", r.pick(&["u", "m", "f", "Z", "b", "1", " z"]), &mb(&good(codec, body))[1..]), "other base prefix"),
        2 => {
            let mut c = codec;
            while c == codec {
                c = *r.pick(&[0xec, 0xed, 0x1300, 0x1302, 0x1200, 0x1306, 0xe7, 0x00, 0x12, 0xea]);
            }
            (mb(&good(c, body)), "codec of something else")
        }
        3 => (mb(&good(codec, &body[1..])), "one byte short"),
        4 => {
            let mut b = body.to_vec();
            b.push(r.u64() as u8);
            (mb(&good(codec, &b)), "one byte long")
        }
        5 => (mb(&good(codec, &[])), "no key bytes"),
        6 => ((*r.pick(&["z", "", "zz0", "z!", "zO"])).to_string(), "nothing to decode"),
        7 => (mb(&varint(codec)[..1]), "codec cut"),
        8 => {
            let extra = r.range(1, 3);
            let mut v = long_varint(codec, extra);
            v.extend(&body[extra.min(body.len())..]);
            (mb(&v), "long codec prefix, short key")
        }
        _ => {
            let s = mb(&good(codec, body));
            let i = if r.chance(1, 3) { s.len() } else { r.range(1, s.len()) };
            (format!("{}{}{}", &s[..i], r.pick(&["0", "O", "I", "l", "+", " ", "é", "\n", "="]), &s[i..]), "not base58")
        }
    }
}

fn bad_b58(r: &mut Rng, body: &[u8]) -> (String, &'static str) {
    let e = |b: &[u8]| bs58::encode(b).into_string();
    match r.below(6) {
        0 => (e(&body[1..]), "one byte short"),
        1 => {
            let mut b = body.to_vec();
            b.push(r.u64() as u8);
            (e(&b), "one byte long")
        }
        2 => (String::new(), "empty"),
        3 => {
            let s = e(body);
            let i = if r.chance(1, 3) { s.len() } else { r.range(0, s.len()) };
            (format!("{}{}{}", &s[..i], r.pick(&["0", "O", "I", "l", "+", " ", "é", "\n", "="]), &s[i..]), "not base58")
        }
        4 => (b64(body) + "_", "base64url"),
        _ => {
            let n = r.below(16);
            (e(&r.bytes(n)), "short")
        }
    }
}

fn bad_jwk(r: &mut Rng, k: &Key, private: bool) -> (Value, &'static str) {
    let mut v = k.jwk(private);
    let what = match r.below(9) {
        0 => {
            v["crv"] = json!(if k.crv.kty() == "EC" { *r.pick(&["X25519", "Ed25519", "P-384", "P-521"]) } else { *r.pick(&["P-256", "secp256k1", "X448", "Ed448"]) });
            "curve of another key type"
        }
        1 => {
            v["kty"] = json!(if k.crv.kty() == "EC" { *r.pick(&["OKP", "ec", "RSA", "oct", ""]) } else { *r.pick(&["EC", "okp", "RSA", "oct", ""]) });
            "other key type"
        }
        2 => {
            v["crv"] = json!(r.pick(&["x25519", "ed25519", "p-256", "P256", "SECP256K1", "", "Curve25519"]));
            "curve misspelt"
        }
        3 => {
            let m = if k.crv.kty() == "EC" { *r.pick(&["kty", "crv", "x", "y"]) } else { *r.pick(&["kty", "crv", "x"]) };
            v.as_object_mut().unwrap().remove(m);
            "member missing"
        }
        4 => {
            let n = *r.pick(&[0usize, 1, 31, 33, 64]);
            v["x"] = json!(b64(&r.bytes(n)));
            "x of another length"
        }
        5 => {
            v["x"] = json!(format!("{}{}", v["x"].as_str().unwrap(), r.pick(&["+", "!", " ", "é"])));
            "x is not base64url"
        }
        6 if k.crv.kty() == "EC" => {
            let mut y = k.pk[32..].to_vec();
            y[31] ^= 1;
            v["y"] = json!(b64(&y));
            "point is not on the curve"
        }
        7 => {
            let m = *r.pick(&["kty", "crv", "x"]);
            v[m] = r.pick(&[json!(null), json!(1), json!(["a"]), json!({})]).clone();
            "member of another type"
        }
        _ if private => {
            match r.below(3) {
                0 => {
                    v.as_object_mut().unwrap().remove("d");
                }
                1 => {
                    let n = *r.pick(&[0usize, 1, 31, 33, 64]);
                    v["d"] = json!(b64(&r.bytes(n)));
                }
                _ => v["d"] = json!(" "),
            }
            "d missing or of another length"
        }
        _ => {
            v = r.pick(&[json!(null), json!([]), json!("x"), json!(1), json!({})]).clone();
            "not an object"
        }
    };
    (v, what)
}

fn bad_vm(r: &mut Rng, kid: &str, k: &Key) -> Option<(VerificationMethod, String)> {
    let (t58, t20, codec) = match k.crv {
        Crv::X25519 => (VT::X25519KeyAgreementKey2019, VT::X25519KeyAgreementKey2020, 0xec),
        _ => (VT::Ed25519VerificationKey2018, VT::Ed25519VerificationKey2020, 0xed),
    };
    let okp = k.crv.kty() == "OKP";
    let which = if okp { r.below(5) } else { *r.pick(&[2, 3]) };
    let (type_, verification_material, what) = match which {
        0 => {
            let (s, w) = bad_multibase(r, codec, &k.pk);
            (t20, VerificationMaterial::Multibase { public_key_multibase: s }, format!("Multibase: {w}"))
        }
        1 => {
            let (s, w) = bad_b58(r, &k.pk);
            (t58, VerificationMaterial::Base58 { public_key_base58: s }, format!("Base58: {w}"))
        }
        2 => {
            let (v, w) = bad_jwk(r, k, false);
            (VT::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: v }, format!("JWK: {w}"))
        }
        _ => {
            // good material under a type that does not carry it
            let repr = if okp { *r.pick(&REPRS) } else { Repr::Jwk };
            let (own, m) = public_material(k, repr);
            let types = [VT::X25519KeyAgreementKey2019, VT::X25519KeyAgreementKey2020, VT::Ed25519VerificationKey2018, VT::Ed25519VerificationKey2020, VT::JsonWebKey2020, VT::Other, VT::EcdsaSecp256k1VerificationKey2019];
            let t = r.pick(&types).clone();
            // a bare Base58 key of 32 bytes says nothing of its curve
            if format!("{t:?}") == format!("{own:?}") || repr == Repr::B58 && matches!(t, VT::X25519KeyAgreementKey2019 | VT::Ed25519VerificationKey2018) {
                return None;
            }
            let w = format!("{repr:?} in {t:?}");
            (t, m, w)
        }
    };
    Some((VerificationMethod { id: kid.into(), type_, controller: kid.split('#').next().unwrap().into(), verification_material }, what))
}

pub fn bad_secret(r: &mut Rng, kid: &str, k: &Key) -> Option<(Secret, String)> {
    let mut pair = k.sk.clone();
    if k.crv == Crv::Ed25519 {
        pair.extend(&k.pk);
    }
    let (t58, t20, codec) = match k.crv {
        Crv::X25519 => (ST::X25519KeyAgreementKey2019, ST::X25519KeyAgreementKey2020, 0x1302),
        _ => (ST::Ed25519VerificationKey2018, ST::Ed25519VerificationKey2020, 0x1300),
    };
    let okp = k.crv.kty() == "OKP";
    let which = if okp { r.below(5) } else { *r.pick(&[2, 3]) };
    let (type_, secret_material, what) = match which {
        0 => {
            let (s, w) = bad_multibase(r, codec, &pair);
            (t20, SecretMaterial::Multibase { private_key_multibase: s }, format!("Multibase: {w}"))
        }
        1 => {
            let (s, w) = bad_b58(r, &pair);
            (t58, SecretMaterial::Base58 { private_key_base58: s }, format!("Base58: {w}"))
        }
        2 => {
            let (v, w) = bad_jwk(r, k, true);
            (ST::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: v }, format!("JWK: {w}"))
        }
        _ => {
            let repr = if okp { *r.pick(&REPRS) } else { Repr::Jwk };
            let (own, m) = secret_material(k, repr);
            let types = [ST::X25519KeyAgreementKey2019, ST::X25519KeyAgreementKey2020, ST::Ed25519VerificationKey2018, ST::Ed25519VerificationKey2020, ST::JsonWebKey2020, ST::Other, ST::EcdsaSecp256k1VerificationKey2019];
            let t = r.pick(&types).clone();
            if format!("{t:?}") == format!("{own:?}") || repr == Repr::B58 && matches!(t, ST::X25519KeyAgreementKey2019 | ST::Ed25519VerificationKey2018) {
                return None;
            }
            let w = format!("{repr:?} in {t:?}");
            (t, m, w)
        }
    };
    Some((Secret { id: kid.into(), type_, secret_material }, what))
}

fn no_key(r: &mut Rng, obs: &mut Obs) {
    let (a, b) = names(r);
    let (ak, ask, bk) = (format!("{a}#k1"), format!("{a}#s1"), format!("{b}#k1"));
    let kc = if r.chance(2, 3) { Crv::X25519 } else { Crv::P256 };
    let sc = *r.pick(&[Crv::Ed25519, Crv::Ed25519, Crv::P256, Crv::K256]);
    let (ka, kb, ks) = (Key::gen(r, kc), Key::gen(r, kc), Key::gen(r, sc));
    let repr = |r: &mut Rng| *r.pick(&REPRS);
    let mk = |r: &mut Rng, kid: &str, k: &Key| {
        let p = repr(r);
        vm(r, kid, k, p)
    };
    let mks = |r: &mut Rng, kid: &str, k: &Key| {
        let p = repr(r);
        secret(r, kid, k, p)
    };
    let (va, vs, vb) = (mk(r, &ak, &ka), mk(r, &ask, &ks), mk(r, &bk, &kb));
    let (sa, ss, sb) = (mks(r, &ak, &ka), mks(r, &ask, &ks), mks(r, &bk, &kb));
    let mut msg = gmsg::message(r);
    msg.attachments = None;
    msg.from = None;
    msg.to = None;
    msg.from_prior = None;
    let o = popts(r);
    let uo = opts(r.bool(), r.bool());
    let pt = gmsg::message_json(&msg).to_string();
    let good = Dr::of([doc(&[va.clone()], &[vs.clone()]), doc(&[vb.clone()], &[])]);
    let sr_a = Sr::of([sa.clone(), ss.clone()]);
    let sr_b = Sr::of([sb.clone()]);
    // sender's, recipient's, or signer's key; public or secret side
    let place = r.below(8);
    let (what, got): (String, Out<String>) = match place {
        0 => match bad_vm(r, &bk, &kb) {
            Some((v, w)) => {
                let dr = Dr::of([doc(&[va], &[vs]), doc(&[v], &[])]);
                let from = if r.bool() { Some(a.as_str()) } else { None };
                (format!("encrypt to: {w}"), encrypt(&msg, &b, from, None, &dr, &sr_a, &o))
            }
            None => return,
        },
        1 => match bad_vm(r, &ak, &ka) {
            Some((v, w)) => {
                let dr = Dr::of([doc(&[v], &[vs]), doc(&[vb], &[])]);
                let t = jwe(r, ENCS[0], &[(bk.clone(), kb.public())], Some((&ak, &ka)), pt.as_bytes());
                (format!("sender's key when unpacking: {w}"), unpack(&t, &dr, &sr_b, &uo).map(|x| x.map(|m| m.0.id)))
            }
            None => return,
        },
        2 => match bad_vm(r, &ask, &ks) {
            Some((v, w)) => {
                let dr = Dr::of([doc(&[va], &[v]), doc(&[vb], &[])]);
                let t = jws(pt.as_bytes(), &ask, &ks).to_string();
                (format!("signer's key when unpacking: {w}"), unpack(&t, &dr, &sr_b, &uo).map(|x| x.map(|m| m.0.id)))
            }
            None => return,
        },
        3 => match bad_secret(r, &bk, &kb) {
            Some((s, w)) => {
                let from = if r.bool() { Some((ak.as_str(), &ka)) } else { None };
                let e = if from.is_some() { ENCS[0] } else { *r.pick(&ENCS) };
                let t = jwe(r, e, &[(bk.clone(), kb.public())], from, pt.as_bytes());
                (format!("recipient's secret: {w}"), unpack(&t, &good, &Sr::of([s]), &uo).map(|x| x.map(|m| m.0.id)))
            }
            None => return,
        },
        4 => match bad_secret(r, &ak, &ka) {
            Some((s, w)) => (format!("sender's secret: {w}"), encrypt(&msg, &b, Some(&a), None, &good, &Sr::of([s, ss]), &o)),
            None => return,
        },
        5 => match bad_secret(r, &ask, &ks) {
            Some((s, w)) => {
                let sr = Sr::of([sa, s]);
                if r.bool() {
                    (format!("signing secret: {w}"), crate::world::run(async { Ok(msg.pack_signed(&ask, &good, &sr).await?.0) }))
                } else {
                    let fp = FromPrior { iss: a.clone(), sub: b.clone(), aud: None, exp: None, nbf: None, iat: None, jti: None };
                    (format!("signing secret for a token: {w}"), crate::world::run(async { Ok(fp.pack(Some(&ask), &good, &sr).await?.0) }))
                }
            }
            None => return,
        },
        6 => match bad_vm(r, &ask, &ks) {
            Some((v, w)) => {
                let t = jwt(&json!({"typ": "JWT", "alg": sc.sign_alg(), "kid": ask}), json!({"iss": a, "sub": b}).to_string().as_bytes(), &ks);
                (format!("issuer's key: {w}"), crate::world::run(async { Ok(FromPrior::unpack(&t, &Dr::of([doc(&[va], &[v])])).await?.1) }))
            }
            None => return,
        },
        _ => {
            // a good key in a place for keys of another purpose
            let e = Key::gen(r, Crv::Ed25519);
            let x = Key::gen(r, Crv::X25519);
            match r.below(4) {
                0 => {
                    let v = mk(r, &bk, &e);
                    let dr = Dr::of([doc(&[va], &[vs]), doc(&[v], &[])]);
                    ("encrypt to: an Ed25519 key".into(), encrypt(&msg, &b, None, None, &dr, &sr_a, &o))
                }
                1 => {
                    let v = mk(r, &ask, &x);
                    let s = mks(r, &ask, &x);
                    let dr = Dr::of([doc(&[va], &[v])]);
                    ("sign: with an X25519 key".into(), crate::world::run(async { Ok(msg.pack_signed(&ask, &dr, &Sr::of([s])).await?.0) }))
                }
                2 => {
                    let t = jwe(r, ENCS[0], &[(bk.clone(), kb.public())], None, pt.as_bytes());
                    let s = mks(r, &bk, &e);
                    ("recipient's secret: an Ed25519 key".into(), unpack(&t, &good, &Sr::of([s]), &uo).map(|x| x.map(|m| m.0.id)))
                }
                _ => {
                    let other = *r.pick(&[Crv::Ed25519, Crv::P256, Crv::K256, Crv::X25519]);
                    if other == sc {
                        return;
                    }
                    let k = Key::gen(r, other);
                    let v = mk(r, &ask, &k);
                    let t = jws(pt.as_bytes(), &ask, &ks).to_string();
                    (format!("signer's key when unpacking: {other:?} for {sc:?}"), unpack(&t, &Dr::of([doc(&[va], &[v])]), &sr_b, &uo).map(|x| x.map(|m| m.0.id)))
                }
            }
        }
    };
    obs.eval(&format!("{what}{kc:?}{sc:?}"));
    obs.count(what.split(':').next().unwrap());
    match &got {
        Ok(Ok(t)) => obs.violation(format!("material that is no such key was used ({what})"), json!({"what": what, "result": t, "keys": [ka.jwk(true), kb.jwk(true), ks.jwk(true)]})),
        Ok(Err(_)) => {}
        Err(e) => obs.violation("abnormal", json!({"what": what, "how": e.to_string()})),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Keys of every curve, some with leading zero bytes, appear as JWK, Base58 or Multibase, chosen independently for the packer's documents, the unpacker's documents
         and each secret; what is encrypted or signed must open, and an independent implementation must find the same key used. Material damaged in its type, codec,
         encoding, length or curve must be refused at every place a key is used. Distinct = operation, curves and representations, or place and defect.",
    );
    run.assume("Base58 X25519 and Ed25519 public keys cannot be told apart and are not judged against each other; a JWK whose d does not belong to its x is not judged. JWK checks are the stand-in's.");
    let n = run.cfg.n(8000, 300_000);
    run.cases("same key", n, |_, r, obs| same_key(r, obs));
    let n = run.cfg.n(20_000, 600_000);
    run.cases("no key", n, |_, r, obs| no_key(r, obs));
    run.require("encrypt to", 300);
    run.require("recipient's secret", 300);
    run.require("signing secret", 100);
}
