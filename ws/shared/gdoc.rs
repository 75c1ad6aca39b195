//! Random DID documents and secrets, as a value and as the JSON the W3C / DIDComm formats prescribe for it.
use crate::dc::{
    did::{DIDCommMessagingService, DIDDoc, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType},
    secrets::{Secret, SecretMaterial, SecretType},
};
use serde_json::{json, Value};
use vcommon::{gen, Rng};

pub const VM_TYPES: [&str; 7] = [
    "JsonWebKey2020",
    "X25519KeyAgreementKey2019",
    "Ed25519VerificationKey2018",
    "EcdsaSecp256k1VerificationKey2019",
    "X25519KeyAgreementKey2020",
    "Ed25519VerificationKey2020",
    "Other",
];

pub fn vm_type(i: usize) -> VerificationMethodType {
    use VerificationMethodType::*;
    match i {
        0 => JsonWebKey2020,
        1 => X25519KeyAgreementKey2019,
        2 => Ed25519VerificationKey2018,
        3 => EcdsaSecp256k1VerificationKey2019,
        4 => X25519KeyAgreementKey2020,
        5 => Ed25519VerificationKey2020,
        _ => Other,
    }
}

pub fn vm_name(t: &VerificationMethodType) -> &'static str {
    use VerificationMethodType::*;
    match t {
        JsonWebKey2020 => VM_TYPES[0],
        X25519KeyAgreementKey2019 => VM_TYPES[1],
        Ed25519VerificationKey2018 => VM_TYPES[2],
        EcdsaSecp256k1VerificationKey2019 => VM_TYPES[3],
        X25519KeyAgreementKey2020 => VM_TYPES[4],
        Ed25519VerificationKey2020 => VM_TYPES[5],
        Other => VM_TYPES[6],
    }
}

pub fn secret_type(i: usize) -> SecretType {
    use SecretType::*;
    match i {
        0 => JsonWebKey2020,
        1 => X25519KeyAgreementKey2019,
        2 => Ed25519VerificationKey2018,
        3 => EcdsaSecp256k1VerificationKey2019,
        4 => X25519KeyAgreementKey2020,
        5 => Ed25519VerificationKey2020,
        _ => Other,
    }
}

pub fn secret_name(t: &SecretType) -> &'static str {
    use SecretType::*;
    match t {
        JsonWebKey2020 => VM_TYPES[0],
        X25519KeyAgreementKey2019 => VM_TYPES[1],
        Ed25519VerificationKey2018 => VM_TYPES[2],
        EcdsaSecp256k1VerificationKey2019 => VM_TYPES[3],
        X25519KeyAgreementKey2020 => VM_TYPES[4],
        Ed25519VerificationKey2020 => VM_TYPES[5],
        Other => VM_TYPES[6],
    }
}

pub fn jwk(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => gen::obj(r, 1),
        1 => json!({"kty": "OKP", "crv": "X25519", "x": gen::word(r, 43)}),
        2 => json!({"kty": "EC", "crv": "P-256", "x": gen::word(r, 43), "y": gen::word(r, 43)}),
        _ => json!({"kty": "OKP", "crv": "Ed25519", "x": gen::word(r, 43), "d": gen::word(r, 43)}),
    }
}

pub fn vm(r: &mut Rng, did: &str) -> VerificationMethod {
    VerificationMethod {
        id: if r.bool() { format!("{did}#{}", gen::word(r, 3)) } else { gen::text(r) },
        type_: vm_type(r.below(7)),
        controller: if r.bool() { did.to_string() } else { gen::text(r) },
        verification_material: match r.below(3) {
            0 => VerificationMaterial::JWK { public_key_jwk: jwk(r) },
            1 => VerificationMaterial::Multibase { public_key_multibase: gen::text(r) },
            _ => VerificationMaterial::Base58 { public_key_base58: gen::text(r) },
        },
    }
}

pub fn service(r: &mut Rng) -> Service {
    Service {
        id: gen::text(r),
        service_endpoint: if r.chance(3, 4) {
            let (na, nk) = (gen::count(r, 4), gen::count(r, 4));
            ServiceKind::DIDCommMessaging {
                value: DIDCommMessagingService {
                    uri: gen::text(r),
                    accept: if r.bool() { Some((0..na).map(|_| gen::text(r)).collect()) } else { None },
                    routing_keys: (0..nk).map(|_| gen::text(r)).collect(),
                },
            }
        } else {
            let value = match r.below(3) {
                0 => json!({"uri": gen::text(r), "accept": [gen::text(r)], "routingKeys": [gen::text(r)]}),
                _ => gen::obj(r, 2),
            };
            ServiceKind::Other { value }
        },
    }
}

pub fn doc(r: &mut Rng) -> DIDDoc {
    let did = if r.bool() { format!("did:example:{}", gen::word(r, 5)) } else { gen::text(r) };
    let (a, b, c, d) = (gen::count(r, 4), gen::count(r, 4), gen::count(r, 5), gen::count(r, 3));
    let mut vms: Vec<VerificationMethod> = (0..c).map(|_| vm(r, &did)).collect();
    if !vms.is_empty() && r.chance(1, 8) {
        // the same method twice, or two that share an id
        let i = r.below(vms.len());
        let mut x = vms[i].clone();
        if r.bool() {
            x = VerificationMethod { id: x.id, ..vm(r, &did) };
        }
        vms.push(x);
    }
    let names: Vec<String> = vms.iter().flat_map(|v| vec![v.id.clone(), v.id.replace(&did, "")]).chain([did.clone(), format!("{did}#x")]).collect();
    let kid = |r: &mut Rng| if r.bool() { gen::text(r) } else { r.pick(&names).clone() };
    DIDDoc {
        key_agreement: (0..a).map(|_| kid(r)).collect(),
        authentication: (0..b).map(|_| kid(r)).collect(),
        verification_method: vms,
        service: (0..d).map(|_| service(r)).collect(),
        id: did,
    }
}

pub fn secret(r: &mut Rng) -> Secret {
    Secret {
        id: gen::text(r),
        type_: secret_type(r.below(7)),
        secret_material: match r.below(3) {
            0 => SecretMaterial::JWK { private_key_jwk: jwk(r) },
            1 => SecretMaterial::Multibase { private_key_multibase: gen::text(r) },
            _ => SecretMaterial::Base58 { private_key_base58: gen::text(r) },
        },
    }
}

pub fn vm_json(v: &VerificationMethod) -> Value {
    let mut j = json!({"id": v.id, "type": vm_name(&v.type_), "controller": v.controller});
    match &v.verification_material {
        VerificationMaterial::JWK { public_key_jwk } => j["publicKeyJwk"] = public_key_jwk.clone(),
        VerificationMaterial::Multibase { public_key_multibase } => j["publicKeyMultibase"] = json!(public_key_multibase),
        VerificationMaterial::Base58 { public_key_base58 } => j["publicKeyBase58"] = json!(public_key_base58),
    }
    j
}

pub fn service_json(s: &Service) -> Value {
    match &s.service_endpoint {
        ServiceKind::DIDCommMessaging { value } => {
            let mut e = json!({"uri": value.uri, "routingKeys": value.routing_keys});
            if let Some(a) = &value.accept {
                e["accept"] = json!(a);
            }
            json!({"id": s.id, "type": "DIDCommMessaging", "serviceEndpoint": e})
        }
        ServiceKind::Other { value } => json!({"id": s.id, "type": "Other", "serviceEndpoint": value}),
    }
}

pub fn doc_json(d: &DIDDoc) -> Value {
    json!({
        "id": d.id,
        "keyAgreement": d.key_agreement,
        "authentication": d.authentication,
        "verificationMethod": d.verification_method.iter().map(vm_json).collect::<Vec<_>>(),
        "service": d.service.iter().map(service_json).collect::<Vec<_>>(),
    })
}

pub fn secret_json(s: &Secret) -> Value {
    let mut j = json!({"id": s.id, "type": secret_name(&s.type_)});
    match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => j["privateKeyJwk"] = private_key_jwk.clone(),
        SecretMaterial::Multibase { private_key_multibase } => j["privateKeyMultibase"] = json!(private_key_multibase),
        SecretMaterial::Base58 { private_key_base58 } => j["privateKeyBase58"] = json!(private_key_base58),
    }
    j
}
