//! C22: which forwards are replaced by what they carry.
use crate::{
    c11::{near_forward, FORWARD},
    dc::{did::DIDDoc, error::ErrorKind, Attachment, AttachmentData, Base64AttachmentData, LinksAttachmentData, Message, UnpackMetadata},
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use serde_json::{json, Value};
use std::collections::HashSet;
use vcommon::{gen, Obs, Rng, Runner};

/// What a text is, from outside to inside.
enum Node {
    /// Anonymous encryption to these keys.
    Anon(Vec<String>, &'static str, Box<Node>),
    Auth(String, Vec<String>, Box<Node>),
    Signed(String, Box<Node>),
    /// A message. When it is a proper forward: its next and what is attached.
    Msg(Message, Option<(String, Box<Node>)>),
}

struct World {
    parties: Vec<Party>,
    held: HashSet<String>,
}

impl World {
    fn owner(&self, x: &str) -> &Party {
        let d = x.split('#').next().unwrap();
        self.parties.iter().find(|p| p.did == d).unwrap()
    }
    /// None: the property does not decide.
    fn holds(&self, next: &str) -> Option<bool> {
        let d = next.split('#').next().unwrap();
        let p = self.parties.iter().find(|p| p.did == d)?;
        if next.contains('#') {
            if !p.ka.iter().any(|k| k.kid == next) {
                return None;
            }
            Some(self.held.contains(next))
        } else {
            Some(p.ka.iter().any(|k| self.held.contains(&k.kid)))
        }
    }
}

fn pick_keys(r: &mut Rng, p: &Party) -> Vec<(String, Key)> {
    let e = r.pick(&p.ka).clone();
    p.ka.iter().filter(|k| k.key.crv == e.key.crv && (k.kid == e.kid || r.chance(2, 3))).map(|k| (k.kid.clone(), k.key.public())).collect()
}

fn anon(r: &mut Rng, p: &Party, n: (String, Node)) -> (String, Node) {
    let rc = pick_keys(r, p);
    let e = *r.pick(&ENCS);
    (jwe(r, e, &rc, None, n.0.as_bytes()), Node::Anon(rc.into_iter().map(|x| x.0).collect(), e, Box::new(n.1)))
}

fn auth(r: &mut Rng, p: &Party, s: &Party, n: (String, Node)) -> Option<(String, Node)> {
    let k = s.ka.iter().find(|k| p.ka.iter().any(|x| x.key.crv == k.key.crv))?;
    let rc: Vec<_> = p.ka.iter().filter(|x| x.key.crv == k.key.crv).map(|x| (x.kid.clone(), x.key.public())).collect();
    Some((jwe(r, ENCS[0], &rc, Some((&k.kid, &k.key)), n.0.as_bytes()), Node::Auth(k.kid.clone(), rc.into_iter().map(|x| x.0).collect(), Box::new(n.1))))
}

fn sign(r: &mut Rng, s: &Party, n: (String, Node)) -> (String, Node) {
    let k = r.pick(&s.auth);
    (jws(n.0.as_bytes(), &k.kid, &k.key).to_string(), Node::Signed(k.kid.clone(), Box::new(n.1)))
}

fn msg(m: Message, f: Option<(String, Box<Node>)>) -> (String, Node) {
    (gmsg::message_json(&m).to_string(), Node::Msg(m, f))
}

fn plain(r: &mut Rng, s: &Party) -> (String, Node) {
    let mut m = gmsg::message(r);
    m.attachments = None;
    m.from_prior = None;
    m.from = if r.bool() { Some(s.did.clone()) } else { None };
    msg(m, None)
}

/// The message the caller is meant for in the end.
fn inner(r: &mut Rng, w: &World, p: &Party) -> (String, Node) {
    let s = &w.parties[3];
    let mut n = plain(r, s);
    if r.chance(1, 3) {
        n = sign(r, s, n);
    }
    match r.below(5) {
        0 => n,
        1 | 2 => anon(r, p, n),
        3 => auth(r, p, s, n).unwrap(),
        _ => {
            let a = auth(r, p, s, n).unwrap();
            anon(r, p, a)
        }
    }
}

fn forward(r: &mut Rng, next: &str, carried: (String, Node), sender: Option<&Party>) -> (String, Node) {
    let v: Value = serde_json::from_str(&carried.0).unwrap();
    let mut m = near_forward(r, next, &v);
    m.from_prior = None;
    m.from = sender.map(|s| s.did.clone());
    msg(m, Some((next.to_string(), Box::new(carried.1))))
}

/// Not quite a forward.
fn spoilt(r: &mut Rng, next: &str, carried: &str) -> (String, Node) {
    let v: Value = serde_json::from_str(carried).unwrap();
    let mut m = near_forward(r, next, &v);
    m.from_prior = None;
    m.from = None;
    match r.below(6) {
        0 => m.type_ = (*r.pick(&["https://didcomm.org/routing/2.0/forwarded", "https://didcomm.org/routing/2.0/Forward", "https://didcomm.org/basicmessage/2.0/message", "https://didcomm.org/routing/1.0/forward"])).into(),
        1 => m.body = json!({ "next": r.pick(&[json!(null), json!([next]), json!(1), json!({"did": next})]) }),
        2 => m.body = json!({ "to": next }),
        3 => m.attachments = if r.bool() { None } else { Some(vec![]) },
        4 => {
            let mut a = gmsg::attachment(r, 1);
            a.data = AttachmentData::Base64 { value: Base64AttachmentData { base64: b64(carried.as_bytes()), jws: None } };
            m.attachments.as_mut().unwrap().insert(0, a);
        }
        _ => {
            let mut a = gmsg::attachment(r, 1);
            a.data = AttachmentData::Links { value: LinksAttachmentData { links: vec!["http://x".into()], hash: "h".into(), jws: None } };
            m.attachments.as_mut().unwrap().insert(0, a);
        }
    }
    msg(m, None)
}

/// What unpacking must give: the message, whether re-wrapped, sender key, signer key, layers of encryption opened. Err(None): not decided.
type Want<'a> = (&'a Message, bool, Option<String>, Option<String>, Vec<(&'a Vec<String>, Option<&'static str>)>);
fn model<'a>(w: &World, n: &'a Node, unwrap: bool) -> Result<Want<'a>, Option<ErrorKind>> {
    let held = |ks: &Vec<String>| ks.iter().any(|k| w.held.contains(k));
    let mut n = n;
    let mut re = false;
    let mut opened = vec![];
    while let Node::Anon(ks, e, c) = n {
        if !held(ks) {
            return Err(Some(ErrorKind::SecretNotFound));
        }
        opened.push((ks, Some(*e)));
        n = &**c;
        match n {
            Node::Msg(_, Some((next, carried))) if unwrap => match w.holds(next) {
                None => return Err(None),
                Some(true) => {
                    re = true;
                    n = &**carried;
                }
                Some(false) => break,
            },
            _ => break,
        }
    }
    let (mut from, mut signer) = (None, None);
    if let Node::Auth(k, ks, c) = n {
        if !held(ks) {
            return Err(Some(ErrorKind::SecretNotFound));
        }
        from = Some(k.clone());
        opened.push((ks, None));
        n = &**c;
        if let Node::Msg(_, Some(_)) = n {
            if unwrap {
                return Err(None); // an authenticated forward
            }
        }
    }
    if let Node::Signed(k, c) = n {
        signer = Some(k.clone());
        n = &**c;
    }
    match n {
        Node::Msg(m, _) => Ok((m, re, from, signer, opened)),
        _ => Err(None),
    }
}

/// With `trust`, only what is reported about the layers is judged (for C03).
pub fn case(r: &mut Rng, obs: &mut Obs, trust: bool) {
    let mut parties: Vec<Party> = vec![];
    while parties.len() < 5 {
        // the last two know both curves, so that the sender can always authenticate
        let c = if parties.len() >= 3 { vec![Crv::X25519, Crv::P256] } else { curves(r) };
        let p = party(r, &c);
        if !parties.iter().any(|x| x.did == p.did) {
            parties.push(p);
        }
    }
    let mut w = World { parties, held: HashSet::new() };
    // the caller: party 0, often 1 too; party 2 is somebody else
    for k in &w.parties[0].ka {
        if r.chance(3, 4) {
            w.held.insert(k.kid.clone());
        }
    }
    if r.bool() {
        for k in &w.parties[1].ka {
            if r.chance(3, 4) {
                w.held.insert(k.kid.clone());
            }
        }
    }
    let depth = if r.chance(1, 30) { if r.chance(1, 8) { r.range(15, 22) } else { r.range(5, 14) } } else { *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4]) };
    let target = r.below(2);
    let t = w.parties[target].clone();
    let mut n = inner(r, &w, &t);
    let mut desc = format!("{}", kind(&n.1));
    let mut holder = target;
    for i in 0..depth {
        // who is named next, and who can open the layer around
        let nx = match r.below(if depth > 14 { 200 } else if depth > 4 { 60 } else { 10 }) {
            0 => 2,
            1 => r.below(2),
            _ => holder,
        };
        let p = &w.parties[nx];
        let kids: Vec<String> = p.ka.iter().map(|k| k.kid.clone()).collect();
        let heldk: Vec<String> = kids.iter().filter(|k| w.held.contains(*k)).cloned().collect();
        let next = if !heldk.is_empty() && r.chance(1, 3) { r.pick(&heldk).clone() } else { sub(r, &p.did, &kids, 4) };
        let f = if r.chance(1, if depth > 14 { 200 } else if depth > 4 { 60 } else { 8 }) { spoilt(r, &next, &n.0) } else {
            let by = if r.chance(1, 3) { Some(&w.parties[3]) } else { None };
            forward(r, &next, n, by)
        };
        desc += if matches!(f.1, Node::Msg(_, None)) { "<spoilt" } else { "<fwd" };
        desc += match w.holds(&next) {
            Some(true) => "+",
            Some(false) => "-",
            None => "?",
        };
        desc += if next.contains('#') { "k" } else { "d" };
        holder = r.below(2);
        let o = w.parties[holder].clone();
        n = match r.below(if i + 1 == depth { 14 } else { 10 }) {
            12 => f,
            13 => {
                let s = w.parties[3].clone();
                sign(r, &s, f)
            }
            11 => {
                let s = w.parties[3].clone();
                auth(r, &o, &s, f).unwrap()
            }
            10 => {
                let s = w.parties[3].clone();
                let x = sign(r, &s, f);
                anon(r, &o, x)
            }
            _ => anon(r, &o, f),
        };
        desc += kind(&n.1);
    }
    let dr = Dr::new(&w.parties);
    let mut secrets: Vec<KeyEntry> = w.parties.iter().flat_map(|p| p.ka.iter()).filter(|k| w.held.contains(&k.kid)).cloned().collect();
    // keys that decrypt nothing
    let others: Vec<KeyEntry> = w.parties.iter().flat_map(|p| p.auth.iter().chain(&p.extra)).filter(|_| r.chance(1, 3)).cloned().collect();
    if r.bool() {
        secrets.extend(others);
    }
    let sr = Sr::keys(&secrets).reversed(r.bool());
    for unwrap in [true, false] {
        let want = model(&w, &n.1, unwrap);
        obs.eval(&format!("{desc}{unwrap}{}", want.is_ok()));
        let got = unpack(&n.0, &dr, &sr, &opts(r.bool(), unwrap));
        let wit = || {
            json!({"structure (inside to outside)": desc, "unwrap": unwrap, "held": w.held, "expected": want.as_ref().map(|x| (gmsg::message_json(x.0), x.1)).map_err(|e| format!("{e:?}")).map_or_else(|e| json!(e), |v| json!(v)),
                "got": got.as_ref().map(|g| g.as_ref().map(|x| json!([gmsg::message_json(&x.0), x.1.re_wrapped_in_forward])).unwrap_or_else(|e| json!(format!("{e:?}")))).unwrap_or_else(|e| json!(e.to_string())), "text": n.0})
        };
        match (&want, &got) {
            (Err(_), _) | (Ok(_), Err(_) | Ok(Err(_))) if trust => obs.count("judged elsewhere"),
            (_, Err(_)) => obs.violation("abnormal", wit()),
            (Err(None), _) => obs.count("not judged"),
            (Err(Some(k)), Ok(Err(e))) => {
                obs.check(e.kind() == *k, "refused as another kind", wit);
                obs.count("no key for an inner layer");
            }
            (Err(Some(_)), Ok(Ok(_))) => obs.violation("unpacked without a key", wit()),
            (Ok(_), Ok(Err(_))) => obs.violation("refused", wit()),
            (Ok((m, re, from, signer, opened)), Ok(Ok((gm, meta)))) => {
                if gmsg::same(gm, m) {
                    obs.check(meta.re_wrapped_in_forward == *re, "re-wrapping not reported as it was", wit);
                    obs.check(meta.encrypted_from_kid == *from && meta.sign_from == *signer && meta.authenticated == (from.is_some() || signer.is_some()) && meta.non_repudiation == signer.is_some(), "trust of another layer reported", || json!({"metadata": format!("{meta:?}"), "case": wit()}));
                    if let Some(x) = encryption_of(opened, *re, meta) {
                        obs.violation(format!("encryption reported that no opened layer has: {x}"), json!({"metadata": format!("{meta:?}"), "case": wit()}));
                    }
                    if *re && depth > 17 {
                        obs.count("unwrapped a very long route");
                    }
                    if *re && depth > 6 {
                        obs.count("unwrapped a long route");
                    }
                    obs.count(if *re { "unwrapped" } else if gm.type_ == FORWARD { "forward returned" } else { "message returned" });
                } else if !trust {
                    obs.violation(if unwrap { "not the message the route ends with" } else { "unwrapped although not asked to" }, wit());
                }
            }
        }
    }
}

/// What the metadata says of the encryption, against the layers that were opened. Of several anonymous ones, any may be the one described.
fn encryption_of(opened: &[(&Vec<String>, Option<&'static str>)], re: bool, m: &UnpackMetadata) -> Option<&'static str> {
    let anon: Vec<_> = opened.iter().filter_map(|l| l.1).collect();
    let auth = opened.iter().any(|l| l.1.is_none());
    if m.encrypted == opened.is_empty() {
        return Some("encrypted");
    }
    if m.anonymous_sender == anon.is_empty() {
        return Some("anonymous_sender");
    }
    if m.enc_alg_auth.is_some() != auth {
        return Some("enc_alg_auth");
    }
    let alg_ok = match &m.enc_alg_anon {
        None => anon.is_empty(),
        Some(a) => anon.iter().any(|e| anon_of(e) == *a),
    };
    if !alg_ok {
        return Some("enc_alg_anon");
    }
    let to_ok = match &m.encrypted_to_kids {
        None => opened.is_empty(),
        Some(k) if re => opened.iter().any(|l| l.0 == k),
        Some(k) => opened.first().map(|l| l.0) == Some(k),
    };
    if !to_ok {
        return Some("encrypted_to_kids");
    }
    None
}

fn kind(n: &Node) -> &'static str {
    match n {
        Node::Anon(_, _, c) => match **c {
            Node::Auth(..) => "E(A)",
            Node::Signed(..) => "E(S)",
            _ => "E",
        },
        Node::Auth(_, _, c) => match **c {
            Node::Signed(..) => "A(S)",
            _ => "A",
        },
        Node::Signed(..) => "S",
        Node::Msg(..) => "P",
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Up to four (at times fourteen) nested forwards around plain, signed, anonymously and authenticated-encrypted messages, built by an independent implementation; next names the caller's DID or key
         (held or not), another DID of the caller's, or somebody else; some forwards are spoilt, signed, unencrypted or authenticated. A model of the caller's secrets says which
         message unpacking returns and whether it was re-wrapped, with the option on and off. Distinct = (structure inside to outside, next held, option).",
    );
    run.assume("An authenticated-encrypted forward and a next that resolves to no key agreement key are not judged with the option on; of several layers opened, enc_alg_anon and encrypted_to_kids may describe any once a forward was unwrapped.");
    let n = run.cfg.n(12_000, 500_000);
    run.cases("nested", n, |_, r, obs| case(r, obs, false));
    run.require("unwrapped", 1000);
    run.require("unwrapped a very long route", 5);
    run.require("unwrapped a long route", 20);
    run.require("forward returned", 1000);
    run.require("message returned", 500);
}
