//! C13: consistency of packing arguments.
use crate::{dc::error::ErrorKind, gmsg, refc::*, scn::*, world::*};
use serde_json::{json, Value};
use vcommon::{gen, Obs, Rng, Runner};

/// Clearly neither a DID nor a DID URL.
fn no_did(r: &mut Rng, like: &str) -> String {
    let w = gen::word(r, 5);
    match r.below(12) {
        0 => "".into(),
        1 => "did".into(),
        2 => "did:".into(),
        3 => format!("did:{w}"),
        4 => w,
        5 => format!("https://{w}.org:80/a:b"),
        6 => format!(" {like}"),
        7 => like.replacen("did:", "DID:", 1),
        8 => like.replacen("did:", "", 1).replacen(':', "", 1),
        9 => format!("#{w}"),
        10 => like.replace(':', "/"),
        _ => format!("did{like}"),
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Random scenarios, sound or with one inconsistent argument (recipient, sender or signer that is no DID; to list without the
         recipient's DID; from other than the sender), are packed; the inconsistent ones must be refused as IllegalArgument, the others
         must not. Distinct by inconsistency, mode and scenario shape.",
    );
    let n = run.cfg.n(15_000, 500_000);
    run.cases("arguments", n, |_, r, obs| {
        let mode = Some(*r.pick(&[Mode::Signed, Mode::Anon, Mode::Auth, Mode::Auth]));
        let mut s = scn(r, &Knobs { mode, routed: Some(false), small: true, from_prior: Some(false), ..Default::default() });
        let (sd, rd) = (s.parties[0].did.clone(), s.parties[1].did.clone());
        let enc = s.mode != Mode::Signed;
        let what;
        let mut bad = true;
        match r.below(12) {
            0 if enc => {
                s.to = no_did(r, &rd);
                if r.bool() {
                    s.msg.to = None;
                } else {
                    s.msg.to = Some(vec![s.to.split('#').next().unwrap().to_string()]);
                }
                what = "to is no DID";
            }
            1 if s.mode == Mode::Auth => {
                s.from = Some(no_did(r, &sd));
                if r.bool() {
                    s.msg.from = None;
                } else {
                    s.msg.from = s.from.as_ref().map(|f| f.split('#').next().unwrap().to_string());
                }
                what = "from is no DID";
            }
            2 | 3 if s.sign_by.is_some() => {
                s.sign_by = Some(no_did(r, &sd));
                what = "sign_by is no DID";
            }
            4 | 5 | 6 if enc => {
                let mut t: Vec<String> = vec![];
                for _ in 0..r.below(4) {
                    t.push(match r.below(8) {
                        0 => format!("{rd}x"),
                        1 => rd[..rd.len() - 1].to_string(),
                        2 => rd.to_uppercase(),
                        3 => r.pick(&s.parties[1].ka).kid.clone(),
                        4 => format!(" {rd}"),
                        5 => sd.clone(),
                        6 => "".into(),
                        _ => did(r),
                    });
                }
                if t.contains(&rd) {
                    return;
                }
                s.msg.to = Some(t);
                what = "to list lacks the recipient";
            }
            7 | 8 if s.mode == Mode::Auth => {
                let f = match r.below(7) {
                    0 => format!("{sd}x"),
                    1 => sd[..sd.len() - 1].to_string(),
                    2 => sd.to_uppercase(),
                    3 => s.parties[0].ka[0].kid.clone(),
                    4 => rd.clone(),
                    5 => "".into(),
                    _ => did(r),
                };
                s.msg.from = Some(f);
                what = "from names another";
            }
            _ => {
                bad = false;
                what = "consistent";
                if enc && r.bool() {
                    let n = if r.chance(1, 12) { r.range(20, 300) } else { r.below(4) };
                    let mut t: Vec<String> = (0..n).map(|_| if r.bool() { did(r) } else { format!("{rd}x") }).collect();
                    let i = r.below(t.len() + 1);
                    t.insert(i, rd.clone());
                    s.msg.to = Some(t);
                } else if !enc {
                    // nothing is asked of to and from when only signing
                    s.msg.to = if r.bool() { Some(vec![did(r)]) } else { Some(vec![]) };
                    s.msg.from = if r.bool() { Some(did(r)) } else { None };
                }
                if s.mode == Mode::Anon && r.bool() {
                    s.msg.from = Some(did(r));
                }
            }
        }
        obs.eval(&format!("{what}{}", s.shape()));
        obs.count(&format!("{what} ({:?})", s.mode));
        obs.sample(|| json!({"what": what, "to": s.to, "from": s.from, "sign_by": s.sign_by}));
        let dr = s.dr();
        let sr = s.sender_sr();
        let res = s.pack_with(&dr, &sr);
        let w = |x: Value| json!({"detail": x, "scenario": s.brief(), "message.to": s.msg.to, "message.from": s.msg.from});
        match res {
            Ok(Ok(p)) if bad => obs.violation(format!("packed though {what}"), w(json!(p.text))),
            Ok(Ok(_)) => obs.count("packed"),
            Ok(Err(e)) if bad => {
                obs.count("refused");
                obs.check(e.kind() == ErrorKind::IllegalArgument, "refused as another kind", || w(json!({"what": what, "kind": format!("{:?}", e.kind()), "text": e.to_string()})));
            }
            Ok(Err(e)) => obs.violation("consistent arguments refused", w(json!(format!("{e:?}")))),
            Err(a) => obs.violation("abnormal", w(json!(a.to_string()))),
        }
    });
    run.require("refused", 2000);
    run.require("packed", 2000);
}
