//! C16: the bundled resolvers answer exactly from their contents.
use crate::{
    dc::{
        did::{resolvers::ExampleDIDResolver, DIDResolver},
        secrets::{resolvers::ExampleSecretsResolver, SecretMaterial, SecretsResolver},
    },
    gdoc::{self, doc_json, secret_json},
};
use serde_json::json;
use vcommon::{exec, gen, Obs, Rng, Runner};

/// Ids that are easily confused with one another.
fn ids(r: &mut Rng) -> Vec<String> {
    let base = match r.below(3) {
        0 => gen::text(r),
        1 => format!("did:example:{}", gen::word(r, 4)),
        _ => format!("did:example:{}#{}", gen::word(r, 3), gen::word(r, 2)),
    };
    let mut v = vec![
        base.clone(),
        format!("{base}1"),
        format!("x{base}"),
        base.to_uppercase(),
        format!("{base} "),
        format!("{base}#key-1"),
        format!("{base}#"),
        format!("{base}?a=b"),
        base.chars().skip(1).collect(),
        base.split('#').next().unwrap().to_string(),
        {
            let mut b: Vec<char> = base.chars().collect();
            b.pop();
            b.into_iter().collect()
        },
        base.replace("example", "Example"),
        format!("{base}/"),
        format!("{base}\0"),
        format!("{base}\n"),
        format!("{base};v=1"),
        format!("{base}{base}"),
        base.replace(':', "%3A"),
        base.replace('k', "\u{212a}"),
        base.chars().rev().collect(),
        String::new(),
        gen::text(r),
    ];
    if r.chance(1, 25) {
        let n = r.range(20, 400);
        v.extend((0..n).map(|i| if i % 2 == 0 { format!("{base}{i}") } else { format!("did:example:{}", gen::word(r, 6)) }));
    }
    r.shuffle(&mut v);
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

pub fn run(run: &mut Runner) {
    run.rule(
        "C16: resolvers are built over random subsets of families of near-equal ids (prefixes, suffixes, case, fragments, queries) and asked for every id of the
         family; answers are compared with the subset. Distinct = distinct (held, asked) pattern.",
    );
    let n = run.cfg.n(8000, 120_000);
    run.cases("did", n, |_, r, o| did(r, o));
    run.cases("secrets", n, |_, r, o| secrets(r, o));
    run.require("answers: document", 500);
    run.require("answers: none", 500);
    run.require("find: some held", 200);
}

fn did(r: &mut Rng, o: &mut Obs) {
    let ids = ids(r);
    let held = r.subset(&ids);
    let docs: Vec<_> = held
        .iter()
        .map(|i| {
            let mut d = gdoc::doc(r);
            d.id = i.clone();
            // what a document contains is not what it is asked for by
            if r.bool() {
                let x = r.pick(&ids).clone();
                match r.below(6) {
                    0 => d.key_agreement.push(x),
                    1 => d.authentication.push(x),
                    k => {
                        let mut vm = gdoc::vm(r, i);
                        if k < 4 {
                            vm.id = x
                        } else {
                            vm.controller = x
                        }
                        d.verification_method.push(vm)
                    }
                }
            }
            d
        })
        .collect();
    let js: Vec<_> = docs.iter().map(doc_json).collect();
    let res = ExampleDIDResolver::new(docs);
    let mut order = ids.clone();
    order.extend(r.subset(&ids));
    r.shuffle(&mut order);
    for q in &order {
        let exp = held.iter().position(|h| h == q).map(|i| js[i].clone());
        o.eval(&format!("{:?}{}", ids.iter().map(|i| held.contains(i)).collect::<Vec<_>>(), ids.iter().position(|i| i == q).unwrap()));
        o.count(if exp.is_some() { "answers: document" } else { "answers: none" });
        match exec::run(res.resolve(q)) {
            Ok(Ok(a)) => {
                let got = a.as_ref().map(doc_json);
                o.check(got == exp, if exp.is_some() { "wrong-document" } else { "document-for-unknown-did" }, || json!({"held": held, "asked": q, "expected": exp, "got": got}));
            }
            Ok(Err(e)) => o.violation("resolver-error", json!({"held": held, "asked": q, "error": e.to_string()})),
            Err(p) => o.violation("panic", json!({"held": held, "asked": q, "panic": p.to_string()})),
        }
    }
    o.sample(|| json!({"held": held, "asked": order.len()}));
}

fn secrets(r: &mut Rng, o: &mut Obs) {
    let ids = ids(r);
    let held = r.subset(&ids);
    let ss: Vec<_> = held
        .iter()
        .map(|i| {
            let mut s = gdoc::secret(r);
            s.id = i.clone();
            if r.bool() {
                let x = r.pick(&ids).clone();
                s.secret_material = match r.below(3) {
                    0 => SecretMaterial::JWK { private_key_jwk: json!({"kid": x, "kty": "OKP", "crv": "X25519", "x": gen::word(r, 43), "d": gen::word(r, 43)}) },
                    1 => SecretMaterial::Multibase { private_key_multibase: x },
                    _ => SecretMaterial::Base58 { private_key_base58: x },
                };
            }
            s
        })
        .collect();
    let js: Vec<_> = ss.iter().map(secret_json).collect();
    let res = ExampleSecretsResolver::new(ss);
    for q in &ids {
        let exp = held.iter().position(|h| h == q).map(|i| js[i].clone());
        o.eval(&format!("{:?}{}", ids.iter().map(|i| held.contains(i)).collect::<Vec<_>>(), ids.iter().position(|i| i == q).unwrap()));
        match exec::run(res.get_secret(q)) {
            Ok(Ok(a)) => {
                let got = a.as_ref().map(secret_json);
                o.check(got == exp, if exp.is_some() { "wrong-secret" } else { "secret-for-unknown-id" }, || json!({"held": held, "asked": q, "expected": exp, "got": got}));
            }
            Ok(Err(e)) => o.violation("resolver-error", json!({"held": held, "asked": q, "error": e.to_string()})),
            Err(p) => o.violation("panic", json!({"held": held, "asked": q, "panic": p.to_string()})),
        }
    }
    for _ in 0..4 {
        let mut q = r.subset(&ids);
        if r.chance(1, 8) {
            q = ids.clone()
        }
        r.shuffle(&mut q);
        let qs: Vec<&str> = q.iter().map(|s| s.as_str()).collect();
        let exp: Vec<&str> = qs.iter().copied().filter(|x| held.iter().any(|h| h == x)).collect();
        if !exp.is_empty() {
            o.count("find: some held");
        }
        match exec::run(res.find_secrets(&qs)) {
            Ok(Ok(got)) => {
                o.eval(&format!("f{}{}", exp.len(), q.len()));
                o.check(got == exp, "find-secrets", || json!({"held": held, "asked": qs, "expected": exp, "got": got}));
            }
            Ok(Err(e)) => o.violation("resolver-error", json!({"held": held, "asked": qs, "error": e.to_string()})),
            Err(p) => o.violation("panic", json!({"held": held, "asked": qs, "panic": p.to_string()})),
        }
    }
}
