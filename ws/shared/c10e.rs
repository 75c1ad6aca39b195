//! C10, the error type's part: adding context never changes a kind, and conversions give the documented kind.
use crate::dc::error::{err_msg, Error, ErrorKind, Result, ResultContext, ResultExt, ResultExtNoContext, ToResult};
use serde_json::json;
use vcommon::{gen, guard, Rng, Runner};

pub const KINDS: [(ErrorKind, &str); 9] = [
    (ErrorKind::DIDNotResolved, "DIDNotResolved"),
    (ErrorKind::DIDUrlNotFound, "DIDUrlNotFound"),
    (ErrorKind::SecretNotFound, "SecretNotFound"),
    (ErrorKind::Malformed, "Malformed"),
    (ErrorKind::IoError, "IoError"),
    (ErrorKind::InvalidState, "InvalidState"),
    (ErrorKind::NoCompatibleCrypto, "NoCompatibleCrypto"),
    (ErrorKind::Unsupported, "Unsupported"),
    (ErrorKind::IllegalArgument, "IllegalArgument"),
];

fn source(r: &mut Rng, kind: ErrorKind) -> Result<u32> {
    let t = gen::text(r);
    match r.below(6) {
        0 => Err(Error::new(kind, std::io::Error::new(std::io::ErrorKind::Other, t))),
        1 => Err(Error::msg(kind, t)),
        2 => Err(err_msg(kind, t)),
        3 => ResultExt::kind(Err::<u32, _>(std::io::Error::new(std::io::ErrorKind::Other, t)), kind, "context"),
        4 => ResultExtNoContext::kind_no_context(Err::<u32, _>(t), kind, "context"),
        _ => ResultExtNoContext::to_error_kind(Err::<u32, _>(t), kind).map_err(|k| err_msg(k, "x")),
    }
}

pub fn run(run: &mut Runner) {
    run.rule("C10/errors: errors of every kind made every way, with random chains of added context; conversions of JSON and Base58 errors from random bad input. Distinct = (kind, construction, chain length).");
    let n = run.cfg.n(3000, 60_000);
    run.cases("context", n, |c, r, o| {
        let (kind, name) = KINDS[c as usize % 9];
        let depth = r.below(6);
        let got = guard(|| {
            let mut e = source(r, kind);
            for _ in 0..depth {
                e = ResultContext::context(e, gen::text(r));
            }
            e.map_err(|e| (e.kind(), e.to_string(), format!("{e:?}"), serde_json::to_value(e.kind()).unwrap()))
        });
        o.eval(&format!("{name}{depth}"));
        match got {
            Ok(Err((k, text, dbg, ser))) => {
                o.sample(|| json!({"kind": name, "text": text}));
                o.check(k == kind, "context-changes-kind", || json!({"made": name, "got": format!("{k:?}")}));
                o.check(!text.is_empty() && !dbg.is_empty(), "empty-error-text", || json!(name));
                o.check(ser == json!(name), "kind-name", || json!({"kind": name, "serialised": ser}));
            }
            Ok(Ok(_)) => o.violation("error-lost", json!(name)),
            Err(p) => o.violation("panic", json!(p.to_string())),
        }
        // success values pass through unchanged
        let v = r.u64();
        let ok = guard(|| {
            let a: Result<u64> = ResultContext::context(Ok(v), "x");
            let b: Result<u64> = ResultExt::kind(Ok::<_, std::io::Error>(v), kind, "x");
            let c: Result<u64> = ResultExtNoContext::kind_no_context(Ok::<_, String>(v), kind, "x");
            a.ok() == Some(v) && b.ok() == Some(v) && c.ok() == Some(v)
        });
        o.eval("ok");
        o.check(ok == Ok(true), "value-changed", || json!(v));
    });
    run.cases("conversions", n, |_, r, o| {
        let doc = serde_json::to_string(&gen::obj(r, 3)).unwrap();
        let bad = match r.below(5) {
            0 => {
                let mut k = r.below(doc.len());
                while !doc.is_char_boundary(k) {
                    k -= 1
                }
                doc[..k].to_string()
            }
            1 => format!("{doc}}}"),
            2 => format!("[{doc}"),
            3 => gen::text(r) + "\u{1}",
            _ => format!("\"{}", gen::word(r, 5)),
        };
        if serde_json::from_str::<serde_json::Value>(&bad).is_err() {
            let k = guard(|| (ToResult::to_didcomm(serde_json::from_str::<serde_json::Value>(&bad), "ctx").map_err(|e| e.kind()), Error::from(serde_json::from_str::<serde_json::Value>(&bad).unwrap_err()).kind()));
            o.eval("json");
            o.count("malformed json");
            o.check(k == Ok((Err(ErrorKind::Malformed), ErrorKind::Malformed)), "malformed-json-kind", || json!({"text": bad, "got": format!("{k:?}")}));
        }
        let typed = serde_json::from_str::<Vec<u32>>(&doc);
        if typed.is_err() {
            let k = guard(|| ToResult::to_didcomm(typed, "ctx").map_err(|e| e.kind()));
            o.eval("json data");
            o.check(k == Ok(Err(ErrorKind::Malformed)), "mistyped-json-kind", || json!({"text": doc, "got": format!("{k:?}")}));
        }
        let b = format!("{}{}{}", gen::word(r, 3), r.pick(&["0", "O", "I", "l", " ", "é", "-"]), gen::word(r, 3));
        let k = guard(|| ToResult::to_didcomm(bs58::decode(&b).into_vec(), "ctx").map_err(|e| e.kind()));
        o.eval("base58");
        o.check(k == Ok(Err(ErrorKind::Malformed)), "malformed-base58-kind", || json!({"text": b, "got": format!("{k:?}")}));
    });
    run.require("malformed json", 500);
}
