//! C15: DID documents and secrets keep their meaning as JSON (options: see the full harness).
use crate::{
    dc::{
        algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg},
        did::DIDDoc,
        secrets::Secret,
    },
    gdoc::{self, doc_json, secret_json},
};
use serde_json::{json, Value};
use vcommon::{cut, gen, guard, jsonutil::no_duplicates, Obs, Rng, Runner};

fn shape(j: &Value) -> String {
    let vms: Vec<String> = j["verificationMethod"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|v| format!("{}{}", v["type"], v.as_object().unwrap().keys().find(|k| k.starts_with("public")).unwrap()))
        .collect();
    let sv: Vec<String> = j["service"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|v| format!("{}{}{}", v["type"], v["serviceEndpoint"]["accept"].as_array().map(|a| a.len()).unwrap_or(9), v["serviceEndpoint"]["routingKeys"].as_array().map(|a| a.len()).unwrap_or(9)))
        .collect();
    format!("{}/{}/{vms:?}/{sv:?}", j["keyAgreement"].as_array().map(|a| a.len()).unwrap_or(9), j["authentication"].as_array().map(|a| a.len()).unwrap_or(9))
}

trait Kind: serde::Serialize + serde::de::DeserializeOwned {
    const NAME: &'static str;
    fn json(&self) -> Value;
}
impl Kind for DIDDoc {
    const NAME: &'static str = "document";
    fn json(&self) -> Value {
        doc_json(self)
    }
}
impl Kind for Secret {
    const NAME: &'static str = "secret";
    fn json(&self) -> Value {
        secret_json(self)
    }
}

fn write_read<T: Kind>(x: &T, sh: &str, r: &mut Rng, o: &mut Obs) {
    let exp = x.json();
    match guard(|| serde_json::to_string(x)) {
        Ok(Ok(s)) => {
            o.eval(&format!("{}w{sh}", T::NAME));
            o.sample(|| json!({T::NAME: cut(&s, 300)}));
            let back = serde_json::from_str::<Value>(&s);
            o.check(back.as_ref().ok() == Some(&exp) && no_duplicates(&s) == Ok(true), &format!("{}-serialise", T::NAME), || json!({"expected": exp, "got": s}));
            for (k, t) in [("plain", s.clone()), ("restyled", gen::restyle(&exp, r, true))] {
                read::<T>(&t, &exp, &format!("{k}{sh}"), o);
            }
            match guard(|| serde_json::from_value::<T>(exp.clone())) {
                Ok(Ok(b)) => {
                    o.check(b.json() == exp, &format!("{}-read-value", T::NAME), || json!({"expected": exp, "got": b.json()}));
                }
                _ => o.violation(format!("{}-refused-value", T::NAME), json!({"json": exp})),
            }
        }
        _ => o.violation(format!("{}-serialise-error", T::NAME), exp),
    }
}

fn read<T: Kind>(t: &str, exp: &Value, sh: &str, o: &mut Obs) {
    match guard(|| serde_json::from_str::<T>(t)) {
        Ok(Ok(b)) => {
            o.eval(&format!("{}r{sh}", T::NAME));
            o.check(b.json() == *exp, &format!("{}-read", T::NAME), || json!({"text": t, "expected": exp, "got": b.json()}));
        }
        Ok(Err(e)) => o.violation(format!("{}-refused", T::NAME), json!({"text": t, "error": e.to_string()})),
        Err(p) => o.violation("panic", json!({"text": t, "panic": p.to_string()})),
    }
}

fn refuse<T: Kind>(label: &str, v: &Value, r: &mut Rng, o: &mut Obs) {
    let t = gen::restyle(v, r, false);
    match guard(|| serde_json::from_str::<T>(&t)) {
        Ok(Ok(b)) => o.violation(format!("{} accepted: {label}", T::NAME), json!({"text": t, "read as": b.json()})),
        Ok(Err(_)) => {
            o.eval(&format!("{} {label}", T::NAME));
            o.count("refused near-miss");
        }
        Err(p) => o.violation("panic", json!({"text": t, "panic": p.to_string()})),
    }
}

const NEAR_TYPES: [&str; 12] = [
    "JsonWebKey2021", "jsonWebKey2020", "JSONWEBKEY2020", "X25519KeyAgreementKey2018", "X25519KeyAgreementKey", "Ed25519VerificationKey2019",
    "Ed25519VerificationKey", "EcdsaSecp256k1VerificationKey2018", "Bls12381G2Key2020", "other", "", "JsonWebKey2020 ",
];

pub fn run(run: &mut Runner) {
    run.rule(
        "C15: random DID documents and secrets are written and compared with independently written JSON, re-read from the written, a restyled and a
         parsed form; near-miss JSON (required member missing or retyped, unknown or misspelt key type, no key material, optional members absent, unknown members
         present) is read and compared with the documented meaning. Distinct = distinct document shape or mutation class.",
    );
    let n = run.cfg.n(20_000, 400_000);
    run.cases("doc", n, |_, r, o| {
        let d = gdoc::doc(r);
        let sh = shape(&doc_json(&d));
        write_read(&d, &sh, r, o);
    });
    run.cases("secret", n, |_, r, o| {
        let s = gdoc::secret(r);
        let sh = format!("{}{}", gdoc::secret_name(&s.type_), secret_json(&s).as_object().unwrap().keys().find(|k| k.starts_with("private")).unwrap());
        write_read(&s, &sh, r, o);
    });
    run.cases("doc-near", n * 2, |_, r, o| doc_near(r, o));
    run.cases("secret-near", n, |_, r, o| {
        let s = gdoc::secret(r);
        let mut v = secret_json(&s);
        match r.below(4) {
            0 => {
                let k = v.as_object().unwrap().keys().cloned().collect::<Vec<_>>();
                let k = r.pick(&k).clone();
                v.as_object_mut().unwrap().remove(&k);
                refuse::<Secret>(&format!("missing {k}"), &v, r, o)
            }
            1 => {
                v["type"] = json!(*r.pick(&NEAR_TYPES));
                refuse::<Secret>("unknown key type", &v, r, o)
            }
            2 => {
                let k = *r.pick(&["id", "type", "privateKeyMultibase", "privateKeyBase58"]);
                if k.starts_with('p') {
                    v = json!({"id": "x", "type": "Other"});
                }
                v[k] = r.pick(&[json!(5), json!(["a"]), json!({"a": 1}), json!(true)]).clone();
                refuse::<Secret>(&format!("retyped {k}"), &v, r, o)
            }
            _ => {
                let exp = v.clone();
                v["x-unknown"] = gen::json(r, 1);
                o.count("unknown members");
                read::<Secret>(&gen::restyle(&v, r, true), &exp, "unknown member", o)
            }
        }
    });
    run.single("algorithms", |_, o| {
        // names used in options JSON, and defaults
        let anon = [
            (AnonCryptAlg::A256cbcHs512EcdhEsA256kw, "A256cbcHs512EcdhEsA256kw"),
            (AnonCryptAlg::Xc20pEcdhEsA256kw, "Xc20pEcdhEsA256kw"),
            (AnonCryptAlg::A256gcmEcdhEsA256kw, "A256gcmEcdhEsA256kw"),
        ];
        for (a, n) in anon {
            o.eval(n);
            o.check(serde_json::to_value(&a).ok() == Some(json!(n)) && serde_json::from_value::<AnonCryptAlg>(json!(n)).ok() == Some(a), "anon-alg-name", || json!(n));
        }
        o.eval("auth");
        let n = "A256cbcHs512Ecdh1puA256kw";
        o.check(
            serde_json::to_value(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw).ok() == Some(json!(n)) && serde_json::from_value::<AuthCryptAlg>(json!(n)).ok() == Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw),
            "auth-alg-name",
            || json!(n),
        );
        for (a, n) in [(SignAlg::EdDSA, "EdDSA"), (SignAlg::ES256, "ES256"), (SignAlg::ES256K, "ES256K")] {
            o.eval(n);
            o.check(serde_json::to_value(&a).ok() == Some(json!(n)) && serde_json::from_value::<SignAlg>(json!(n)).ok() == Some(a), "sign-alg-name", || json!(n));
        }
        for n in ["", "Xc20p", "xc20pEcdhEsA256kw", "A256cbcHs512Ecdh1puA256kw", "XC20P"] {
            o.eval(n);
            o.check(serde_json::from_value::<AnonCryptAlg>(json!(n)).is_err(), "anon-alg-unknown", || json!(n));
        }
        for n in ["", "ES384", "ES256k", "eddsa", "none"] {
            o.eval(n);
            o.check(serde_json::from_value::<SignAlg>(json!(n)).is_err(), "sign-alg-unknown", || json!(n));
        }
        o.check(AnonCryptAlg::default() == AnonCryptAlg::Xc20pEcdhEsA256kw, "anon-alg-default", || json!("default"));
        o.check(AuthCryptAlg::default() == AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, "auth-alg-default", || json!("default"));
    });
    run.require("refused near-miss", 500);
    run.require("unknown members", 200);
    run.require("absent optional members", 200);
}

fn doc_near(r: &mut Rng, o: &mut Obs) {
    let did = format!("did:example:{}", gen::word(r, 4));
    let mut d = gdoc::doc(r);
    d.verification_method.push(gdoc::vm(r, &did));
    let mut v = doc_json(&d);
    let i = d.verification_method.len() - 1;
    match r.below(6) {
        0 => {
            let k = *r.pick(&["id", "keyAgreement", "authentication", "verificationMethod", "service"]);
            v.as_object_mut().unwrap().remove(k);
            refuse::<DIDDoc>(&format!("missing {k}"), &v, r, o)
        }
        1 => {
            let k = v["verificationMethod"][i].as_object().unwrap().keys().cloned().collect::<Vec<_>>();
            let k = r.pick(&k).clone();
            v["verificationMethod"][i].as_object_mut().unwrap().remove(&k);
            refuse::<DIDDoc>(&format!("method without {k}"), &v, r, o)
        }
        2 => {
            v["verificationMethod"][i]["type"] = json!(*r.pick(&NEAR_TYPES));
            refuse::<DIDDoc>("unknown key type", &v, r, o)
        }
        3 => {
            let (k, bad) = match r.below(6) {
                0 => ("id", json!(1)),
                1 => ("keyAgreement", json!("a")),
                2 => ("keyAgreement", json!([1])),
                3 => ("authentication", json!({"a": 1})),
                4 => ("verificationMethod", json!(["did:example:a#1"])),
                _ => ("service", json!([5])),
            };
            v[k] = bad;
            refuse::<DIDDoc>(&format!("retyped {k}"), &v, r, o)
        }
        4 => {
            let exp = v.clone();
            for (k, x) in [("@context", json!(["https://www.w3.org/ns/did/v1"])), ("alsoKnownAs", json!([])), ("controller", gen::json(r, 1)), ("x-unknown", gen::json(r, 1))] {
                if r.bool() {
                    v[k] = x;
                }
            }
            if r.bool() {
                v["verificationMethod"][i]["x-unknown"] = gen::json(r, 1);
            }
            o.count("unknown members");
            read::<DIDDoc>(&gen::restyle(&v, r, true), &exp, "unknown members", o)
        }
        _ => {
            // optional members of a service endpoint, and required ones
            let mut s = json!({"id": gen::text(r), "type": "DIDCommMessaging", "serviceEndpoint": {"uri": gen::text(r), "accept": [gen::text(r)], "routingKeys": [gen::text(r)]}});
            let l = r.below(7);
            let mut exp = s.clone();
            let ok = match l {
                0 => {
                    s["serviceEndpoint"].as_object_mut().unwrap().remove("accept");
                    exp = s.clone();
                    true
                }
                1 => {
                    s["serviceEndpoint"].as_object_mut().unwrap().remove("routingKeys");
                    exp["serviceEndpoint"]["routingKeys"] = json!([]);
                    true
                }
                2 => {
                    s["serviceEndpoint"] = json!({"uri": s["serviceEndpoint"]["uri"]});
                    exp["serviceEndpoint"] = json!({"uri": s["serviceEndpoint"]["uri"], "routingKeys": []});
                    true
                }
                3 => {
                    s["serviceEndpoint"].as_object_mut().unwrap().remove("uri");
                    false
                }
                4 => {
                    let k = *r.pick(&["id", "type", "serviceEndpoint"]);
                    s.as_object_mut().unwrap().remove(k);
                    false
                }
                5 => {
                    let k = *r.pick(&["uri", "routingKeys", "accept"]);
                    s["serviceEndpoint"][k] = json!(7);
                    false
                }
                _ => {
                    s["serviceEndpoint"]["routingKeys"] = json!(["a", 5]);
                    false
                }
            };
            let pos = r.below(v["service"].as_array().unwrap().len() + 1);
            let mut ve = v.clone();
            v["service"].as_array_mut().unwrap().insert(pos, s);
            ve["service"].as_array_mut().unwrap().insert(pos, exp);
            if ok {
                o.count("absent optional members");
                read::<DIDDoc>(&gen::restyle(&v, r, true), &ve, &format!("absent optional {l}"), o)
            } else {
                refuse::<DIDDoc>(&format!("service defect {l}"), &v, r, o)
            }
        }
    }
}
