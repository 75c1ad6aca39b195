//! C15, the options' part: options read from JSON mean what it says.
use crate::{
    dc::{
        algorithms::{AnonCryptAlg, AuthCryptAlg},
        PackEncryptedOptions, UnpackOptions,
    },
    scn::ANON,
};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use vcommon::{gen, guard, Obs, Rng, Runner};

/// An object's text with its members in random order.
fn text(r: &mut Rng, o: &Map<String, Value>) -> String {
    let mut v: Vec<(&String, &Value)> = o.iter().collect();
    r.shuffle(&mut v);
    let m: Vec<String> = v.iter().map(|(k, x)| format!("{}: {}", json!(k), gen::restyle(x, r, true))).collect();
    format!("{{{}}}", m.join(" , "))
}

fn other(r: &mut Rng, not: &dyn Fn(&Value) -> bool) -> Value {
    loop {
        let v = match r.below(7) {
            0 => json!(null),
            1 => json!(1),
            2 => json!(0),
            3 => json!("true"),
            4 => json!([true]),
            5 => json!({}),
            _ => gen::json(r, 1),
        };
        if !not(&v) {
            return v;
        }
    }
}

fn unknown(r: &mut Rng, o: &mut Map<String, Value>) {
    for _ in 0..r.below(3) {
        let (k, v) = (format!("x_{}", gen::word(r, 4)), gen::json(r, 2));
        o.insert(k, v);
    }
    // members of the other kind of options mean nothing here
    if r.chance(1, 5) {
        o.insert("Forward".into(), json!(false));
        o.insert("protectSender".into(), json!(true));
        o.insert("unwrapReWrappingForward".into(), json!(true));
    }
}

fn pack(r: &mut Rng, obs: &mut Obs) {
    let mut o = Map::new();
    let mut want = PackEncryptedOptions {
        protect_sender: false,
        forward: true,
        forward_headers: None,
        messaging_service: None,
        enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
        enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw,
    };
    let mut ok = true;
    let mut shape = String::new();
    let bad = if r.chance(1, 4) { r.below(6) } else { 9 };
    for (i, m) in ["protect_sender", "forward", "forward_headers", "messaging_service", "enc_alg_auth", "enc_alg_anon"].iter().enumerate() {
        if bad == i {
            let v = match i {
                0 | 1 => other(r, &|v| v.is_boolean()),
                2 => other(r, &|v| v.is_object() || v.is_null()),
                3 => other(r, &|v| v.is_string() || v.is_null()),
                _ => match r.below(3) {
                    0 => json!(r.pick(&["XC20P", "A256GCM", "Xc20pEcdhEsA256Kw", "ECDH-ES+A256KW", "A256cbcHs512", ""])),
                    1 => json!(if i == 4 { "A256cbcHs512EcdhEsA256kw" } else { "A256cbcHs512Ecdh1puA256kw" }),
                    _ => other(r, &|_| false),
                },
            };
            shape += "!";
            o.insert(m.to_string(), v);
            ok = false;
            continue;
        }
        if r.bool() {
            shape += "-";
            continue;
        }
        shape += "+";
        let v = match i {
            0 => {
                want.protect_sender = r.bool();
                json!(want.protect_sender)
            }
            1 => {
                want.forward = r.bool();
                json!(want.forward)
            }
            2 => {
                if r.chance(1, 4) {
                    json!(null)
                } else {
                    let h: HashMap<String, Value> = (0..r.below(4)).map(|_| (gen::text(r), gen::json(r, 2))).collect();
                    want.forward_headers = Some(h.clone());
                    crate::scn::headers(&h)
                }
            }
            3 => {
                if r.chance(1, 4) {
                    json!(null)
                } else {
                    let t = gen::text(r);
                    want.messaging_service = Some(t.clone());
                    json!(t)
                }
            }
            4 => json!("A256cbcHs512Ecdh1puA256kw"),
            _ => {
                let k = r.below(3);
                want.enc_alg_anon = ANON[k].clone();
                json!(["A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256gcmEcdhEsA256kw"][k])
            }
        };
        o.insert(m.to_string(), v);
    }
    unknown(r, &mut o);
    let t = text(r, &o);
    obs.eval(&format!("pack{shape}{}{}", want.protect_sender, want.forward));
    obs.count(if ok { "packing options" } else { "packing options of a wrong type" });
    let got = guard(|| serde_json::from_str::<PackEncryptedOptions>(&t).ok());
    let w = || json!({"text": t, "expected": if ok { format!("{want:?}") } else { "refused".into() }, "got": format!("{got:?}")});
    match &got {
        Ok(g) => {
            obs.check(if ok { g.as_ref() == Some(&want) } else { g.is_none() }, "packing options", w);
        }
        Err(_) => obs.violation("abnormal", w()),
    }
}

fn unpack(r: &mut Rng, obs: &mut Obs) {
    let mut o = Map::new();
    let mut want = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false };
    let mut ok = true;
    let mut shape = String::new();
    for (i, m) in ["expect_decrypt_by_all_keys", "unwrap_re_wrapping_forward"].iter().enumerate() {
        match r.below(6) {
            0 | 1 => shape += "-",
            2 if r.bool() => {
                let v = other(r, &|v| v.is_boolean());
                o.insert(m.to_string(), v);
                ok = false;
                shape += "!";
            }
            _ => {
                let b = r.bool();
                if i == 0 {
                    want.expect_decrypt_by_all_keys = b
                } else {
                    want.unwrap_re_wrapping_forward = b
                }
                o.insert(m.to_string(), json!(b));
                shape += if b { "t" } else { "f" };
            }
        }
    }
    unknown(r, &mut o);
    let t = text(r, &o);
    obs.eval(&format!("unpack{shape}"));
    obs.count(if ok { "unpacking options" } else { "unpacking options of a wrong type" });
    let got = guard(|| serde_json::from_str::<UnpackOptions>(&t).ok());
    let w = || json!({"text": t, "expected": if ok { format!("{want:?}") } else { "refused".into() }, "got": format!("{got:?}")});
    match &got {
        Ok(g) => {
            obs.check(if ok { g.as_ref() == Some(&want) } else { g.is_none() }, "unpacking options", w);
        }
        Err(_) => obs.violation("abnormal", w()),
    }
}

pub fn run(run: &mut Runner) {
    run.rule("C15/options: pack and unpack options as JSON objects with members present, absent, null, reordered, of wrong types, and unknown ones; compared with what the text says and the documented defaults. Distinct = (members present, values).");
    let n = run.cfg.n(20_000, 600_000);
    run.cases("pack options", n, |_, r, obs| pack(r, obs));
    run.cases("unpack options", n, |_, r, obs| unpack(r, obs));
    run.require("packing options", 1000);
    run.require("unpacking options", 1000);
}
