//! Operations of the library with random arguments, and what their answers mean.
use crate::{
    dc::{
        algorithms::AnonCryptAlg,
        did::{DIDDoc, DIDResolver},
        error::Result,
        protocols::routing::{try_parse_forward, wrap_in_forward},
        secrets::{Secret, SecretsResolver},
        FromPrior, Message, PackEncryptedOptions, UnpackMetadata, UnpackOptions,
    },
    gmsg,
    scn::*,
    world::*,
};
use serde_json::{json, Value};
use std::collections::HashMap;
use vcommon::{gen, Abnormal, Rng};

#[derive(Clone)]
pub enum Call {
    Plain(Message),
    Signed(Message, String),
    Enc(Message, String, Option<String>, Option<String>, PackEncryptedOptions),
    Unpack(String, UnpackOptions),
    FpPack(FromPrior, Option<String>),
    FpUnpack(String),
    Wrap(String, HashMap<String, Value>, String, Vec<String>, AnonCryptAlg),
}

/// A packed text, opened before it is compared, and what is compared as it is.
#[derive(Clone, Debug)]
pub struct Answer {
    pub text: Option<String>,
    pub rest: Value,
}

pub fn a(text: Option<String>, rest: Value) -> Answer {
    Answer { text, rest }
}
pub fn unpack_answer(m: &Message, u: &UnpackMetadata) -> Answer {
    a(None, json!([gmsg::message_json(m), serde_json::to_value(u).unwrap()]))
}
pub fn fp_json(f: &FromPrior) -> Value {
    json!([f.iss, f.sub, f.aud, f.exp, f.nbf, f.iat, f.jti])
}

impl Call {
    pub fn name(&self) -> &'static str {
        match self {
            Call::Plain(..) => "pack_plaintext",
            Call::Signed(..) => "pack_signed",
            Call::Enc(..) => "pack_encrypted",
            Call::Unpack(..) => "unpack",
            Call::FpPack(..) => "pack_from_prior",
            Call::FpUnpack(..) => "unpack_from_prior",
            Call::Wrap(..) => "wrap_in_forward",
        }
    }
    pub fn core<D: DIDResolver + Sync, S: SecretsResolver + Sync>(&self, d: &D, k: &S) -> std::result::Result<Result<Answer>, Abnormal> {
        crate::world::run(self.run(d, k))
    }
    pub async fn run(&self, d: &(dyn DIDResolver + Sync), k: &(dyn SecretsResolver + Sync)) -> Result<Answer> {
        Ok(match self {
            Call::Plain(m) => a(None, serde_json::from_str(&m.pack_plaintext(d).await?).unwrap_or(Value::Null)),
            Call::Signed(m, by) => {
                let (t, m) = m.pack_signed(by, d, k).await?;
                a(Some(t), json!(m.sign_by_kid))
            }
            Call::Enc(m, to, from, by, o) => {
                let (t, m) = m.pack_encrypted(to, from.as_deref(), by.as_deref(), d, k, o).await?;
                a(Some(t), serde_json::to_value(m).unwrap())
            }
            Call::Unpack(t, o) => {
                let (m, u) = Message::unpack(t, d, k, o).await?;
                unpack_answer(&m, &u)
            }
            Call::FpPack(f, kid) => {
                let (t, kid) = f.pack(kid.as_deref(), d, k).await?;
                a(Some(t), json!(kid))
            }
            Call::FpUnpack(t) => {
                let (f, kid) = FromPrior::unpack(t, d).await?;
                a(None, json!([fp_json(&f), kid]))
            }
            Call::Wrap(t, h, to, keys, alg) => a(Some(wrap_in_forward(t, Some(h), to, keys, alg, d).await?), Value::Null),
        })
    }
}

pub struct Case {
    pub s: Scn,
    pub call: Call,
    pub dr: Dr,
    pub sr: Sr,
    pub shape: String,
}

pub fn bad(r: &mut Rng, s: &str) -> String {
    match r.below(9) {
        6 => format!("{s}{}", r.pick(&[" ", "\n", "\u{a0}"])),
        7 => format!(" {s}"),
        8 => {
            let n = r.range(200, 6000);
            format!("{}#{}", s.split('#').next().unwrap(), "k".repeat(n))
        }
        0 => String::new(),
        1 => format!("{s}x"),
        2 => "did:example:nobody".into(),
        3 => "not-a-did".into(),
        4 => format!("{}#nokey", s.split('#').next().unwrap()),
        _ => s.chars().take(r.below(s.chars().count().max(1))).collect(),
    }
}

pub fn case(r: &mut Rng) -> Option<Case> {
    case_with(r, &mut |f| f())
}

/// The text to be opened comes from `made`, which may call what makes it or know one already.
pub fn case_with(r: &mut Rng, made: &mut dyn FnMut(&dyn Fn() -> Option<String>) -> Option<String>) -> Option<Case> {
    let what = r.below(10);
    let mode = match what {
        0 => Some(Mode::Plain),
        1 | 2 => Some(Mode::Signed),
        3 | 4 => Some(if r.bool() { Mode::Anon } else { Mode::Auth }),
        _ => None,
    };
    let s = scn(r, &Knobs { small: true, mode, many: 60, ..Default::default() });
    let spoil = r.chance(1, 4);
    let dr = s.dr();
    let mut sr = s.sender_sr();
    let call = match what {
        0 => Call::Plain(s.msg.clone()),
        1 | 2 => {
            let by = s.sign_by.clone()?;
            Call::Signed(s.msg.clone(), if spoil { bad(r, &by) } else { by })
        }
        3 | 4 => {
            let (mut to, mut from, mut by) = (s.to.clone(), s.from.clone(), s.sign_by.clone());
            if spoil {
                match r.below(3) {
                    0 => to = bad(r, &to),
                    1 => from = Some(bad(r, &s.parties[0].did)),
                    _ => by = Some(bad(r, &s.parties[0].did)),
                }
            }
            Call::Enc(s.msg.clone(), to, from, by, s.opts.clone())
        }
        5 | 6 => {
            sr = Sr::party(&s.parties[1]);
            let wrapped = matches!(s.mode, Mode::Anon | Mode::Auth) && r.chance(1, 4);
            let unwrap = wrapped || r.bool();
            let mut t = made(&|| {
                let t = s.deliver(&s.pack().ok()?.ok()?.text).ok()?;
                if !wrapped {
                    return Some(t);
                }
                let (next, key) = (s.parties[1].did.clone(), s.parties[1].ka[0].kid.clone());
                crate::world::run(wrap_in_forward(&t, None, &next, &vec![key], &ANON[0], &dr)).ok()?.ok()
            })?;
            if spoil {
                match r.below(3) {
                    0 => t.truncate(t.char_indices().nth(r.below(t.chars().count())).map(|x| x.0).unwrap_or(0)),
                    1 => sr = Sr::keys(s.parties[1].ka.iter().take(1)),
                    _ => sr = Sr::none(),
                }
            }
            Call::Unpack(t, opts(r.bool(), unwrap))
        }
        7 | 8 => {
            let (iss, subj) = (s.parties[3].clone(), s.parties[0].did.clone());
            let kid = if r.bool() { Some(r.pick(&iss.auth).kid.clone()) } else { None };
            let num = |r: &mut Rng| if r.bool() { Some(gen::u64v(r)) } else { None };
            let fp = FromPrior { iss: iss.did.clone(), sub: subj, aud: r.bool().then(|| gen::text(r)), exp: num(r), nbf: num(r), iat: num(r), jti: r.bool().then(|| gen::text(r)) };
            sr = Sr::party(&iss);
            if what == 7 {
                let kid = if spoil { Some(bad(r, &iss.auth[0].kid)) } else { kid };
                Call::FpPack(fp, kid)
            } else {
                let t = made(&|| Some(crate::world::run(fp.pack(kid.as_deref(), &dr, &sr)).ok()?.ok()?.0))?;
                Call::FpUnpack(if spoil { bad(r, &t) } else { t })
            }
        }
        _ => {
            let n = r.below(4);
            let keys: Vec<String> = (0..n)
                .map(|_| {
                    let i = r.below(s.parties.len());
                    let p = &s.parties[i];
                    let kids: Vec<String> = p.ka.iter().map(|k| k.kid.clone()).collect();
                    let k = if kids.is_empty() { p.did.clone() } else { sub(r, &p.did, &kids, 5) };
                    if spoil { bad(r, &k) } else { k }
                })
                .collect();
            let mut h = HashMap::new();
            for _ in 0..r.below(3) {
                let v = if r.chance(1, 5) { Value::Null } else { gen::json(r, 1) };
                h.insert(format!("h{}", gen::word(r, 3)), v);
            }
            let t = match r.below(4) {
                0 => "{".to_string(),
                1 => "{\"a\":[1,\"x\"]}".into(),
                _ => gen::obj(r, 2).to_string(),
            };
            let to = match r.below(4) {
                0 => bad(r, &s.parties[1].did),
                1 => gen::text(r),
                _ => "did:example:next".to_string(),
            };
            Call::Wrap(t, h, to, keys, r.pick(&ANON).clone())
        }
    };
    let shape = format!("{}{}{}", call.name(), spoil as u8, s.shape());
    Some(Case { s, call, dr, sr, shape })
}

/// What an answer means: a packed text is opened with everybody's keys down to the plaintext.
pub fn meaning(c: &Case, x: &Answer) -> Value {
    let mut v = vec![x.rest.clone()];
    if let Some(t) = &x.text {
        let all = Sr::keys(c.s.parties.iter().flat_map(|p| p.all()));
        if let Call::FpPack(..) = c.call {
            v.push(match crate::world::run(FromPrior::unpack(t, &c.dr)) {
                Ok(Ok((f, kid))) => json!([fp_json(&f), kid]),
                o => json!(format!("{:?}", o.map(|x| x.map(|_| ())))),
            });
        } else {
            let mut t = t.clone();
            for _ in 0..8 {
                match unpack(&t, &c.dr, &all, &opts(false, false)) {
                    Ok(Ok((m, mut u))) => {
                        u.signed_message = u.signed_message.map(|_| String::new());
                        let fw = try_parse_forward(&m);
                        let mut j = gmsg::message_json(&m);
                        if let Some(f) = fw {
                            t = f.forwarded_msg.to_string();
                            j["id"] = json!("");
                            j["attachments"] = json!("");
                            v.push(json!([j, serde_json::to_value(&u).unwrap()]));
                        } else {
                            v.push(json!([j, serde_json::to_value(&u).unwrap()]));
                            break;
                        }
                    }
                    _ => {
                        // a wrapped text that is no message of ours
                        v.push(serde_json::from_str(&t).unwrap_or(Value::Null));
                        break;
                    }
                }
            }
        }
    }
    Value::Array(v)
}

/// Now and then, answers that bear another id than the one asked for.
pub fn renamed(c: &mut Case, r: &mut Rng) {
    if !r.chance(1, 8) {
        return;
    }
    let mut k: Vec<(String, Secret)> = (*c.sr.secrets).clone().into_iter().collect();
    k.sort_by(|a, b| a.0.cmp(&b.0));
    let mut d: Vec<(String, DIDDoc)> = (*c.dr.docs).clone().into_iter().collect();
    d.sort_by(|a, b| a.0.cmp(&b.0));
    for x in k.iter_mut() {
        if r.bool() {
            x.1.id = bad(r, &x.0);
        }
    }
    for x in d.iter_mut() {
        if r.bool() {
            x.1.id = bad(r, &x.0);
        }
    }
    c.sr.secrets = std::sync::Arc::new(k.into_iter().collect());
    c.dr.docs = std::sync::Arc::new(d.into_iter().collect());
    c.shape.push_str("renamed");
}
