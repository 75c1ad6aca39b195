//! C06: what a packed message shows to those who cannot, or may only partly, open it.
use crate::{c01::must_pack, dc::protocols::routing::try_parse_forward, gmsg, refc::*, refjose::*, scn::*, world::*};
use serde_json::{json, Value};
use vcommon::{gen, Obs, Rng, Runner};

/// Text forms a secret may leak in.
pub fn forms(s: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![s.to_vec()];
    if s.len() >= 12 {
        // inside base64 of longer data, at every alignment: cut the characters that depend on neighbours
        for pad in 0..3 {
            let mut x = vec![0u8; pad];
            x.extend(s);
            let e = b64(&x);
            let head = [0, 2, 3][pad];
            let n = s.len() + pad;
            let tail = if n % 3 == 0 { 0 } else { 1 };
            let e = &e[head..e.len() - tail];
            v.push(e.as_bytes().to_vec());
            v.push(e.replace('-', "+").replace('_', "/").into_bytes());
        }
        v.push(s.iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes());
        v.push(s.iter().map(|b| format!("{b:02X}")).collect::<String>().into_bytes());
        v.push(bs58::encode(s).into_vec());
        let rev: Vec<u8> = s.iter().rev().copied().collect();
        v.push(rev);
    }
    v
}

pub fn contains(h: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && n.len() <= h.len() && h.windows(n.len()).any(|w| w == n)
}

/// The text and everything any base64 string in it decodes to, recursively.
pub fn views(text: &[u8], depth: usize, out: &mut Vec<Vec<u8>>) {
    out.push(text.to_vec());
    if depth == 0 {
        return;
    }
    let s = String::from_utf8_lossy(text);
    for w in s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_')) {
        if w.len() >= 8 {
            if let Some(b) = unb64(w) {
                views(&b, depth - 1, out)
            }
        }
    }
}

struct Marks {
    content: Vec<(String, String)>,
    sender: Vec<(String, String)>,
}

/// Puts a unique mark into everything that must stay hidden.
fn mark(r: &mut Rng, s: &mut Scn) -> Marks {
    let list = std::cell::RefCell::new(vec![]);
    let m = |r: &mut Rng, what: &str| {
        let w = gen::word(r, 16);
        list.borrow_mut().push((what.to_string(), w.clone()));
        w
    };
    s.msg.id = m(r, "id");
    s.msg.type_ = format!("https://e.org/{}/1.0/t", m(r, "type"));
    s.msg.body = json!({m(r, "body member"): m(r, "body value"), "n": [m(r, "nested body value")]});
    s.msg.thid = Some(m(r, "thid"));
    s.msg.pthid = Some(m(r, "pthid"));
    s.msg.extra_headers.insert(m(r, "header name"), json!(m(r, "header value")));
    s.msg.created_time = Some(r.u64() | 1 << 62);
    let time = s.msg.created_time.unwrap().to_string();
    list.borrow_mut().push(("created_time".into(), time));
    let att = crate::dc::Attachment::json(json!({"x": m(r, "attachment content")})).id(m(r, "attachment id")).description(m(r, "attachment description")).finalize();
    s.msg.attachments = Some(vec![att, crate::dc::Attachment::base64(m(r, "base64 attachment")).filename(m(r, "attachment filename")).finalize()]);
    let mut content = list.into_inner();
    // identities: names without other meaning
    let mut sender = vec![];
    for p in [0usize, 2, 3] {
        let old = s.parties[p].did.clone();
        let w = gen::word(r, 20);
        let new = format!("did:example:{w}");
        let role = ["sender", "", "signer", "issuer of from_prior"][p];
        sender.push((format!("{role} DID"), w));
        let ren = |x: &mut String| {
            if let Some(t) = x.strip_prefix(&old) {
                *x = format!("{new}{t}");
            }
        };
        let q = &mut s.parties[p];
        q.did = new.clone();
        for k in q.ka.iter_mut().chain(q.auth.iter_mut()).chain(q.extra.iter_mut()) {
            ren(&mut k.kid);
            sender.push((format!("{role} key id"), k.kid.clone()));
            for h in [&k.key.pk[..32]] {
                sender.push((format!("{role} public key"), b64(h)));
            }
        }
        s.held.iter_mut().for_each(ren);
        if let Some(f) = s.from.as_mut() {
            ren(f)
        }
        if let Some(f) = s.sign_by.as_mut() {
            ren(f)
        }
        if let Some(f) = s.msg.from.as_mut() {
            ren(f)
        }
    }
    if s.msg.from_prior.is_some() {
        let (t, c, k) = from_prior_token(r, &s.parties[3].clone(), &s.parties[0].did.clone());
        content.push(("from_prior token".into(), t.clone()));
        s.msg.from_prior = Some(t);
        s.from_prior_claims = Some((c, k));
    }
    Marks { content, sender }
}

fn search(obs: &mut Obs, where_: &str, text: &str, marks: &[(String, String)], s: &Scn) -> bool {
    let mut v = vec![];
    views(text.as_bytes(), 3, &mut v);
    for (what, w) in marks {
        for f in forms(w.as_bytes()) {
            for x in &v {
                obs.count("searches");
                if contains(x, &f) {
                    obs.violation(format!("{what} visible in {where_}"), json!({"text": text, "mark": w, "seen in": String::from_utf8_lossy(x), "scenario": s.brief()}));
                    return false;
                }
            }
        }
    }
    true
}

fn case(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
    let mut s = scn(r, &Knobs { mode, alike: Some(false), ..Default::default() });
    if s.opts.forward_headers.as_ref().map(|h| h.contains_key("next")).unwrap_or(false) {
        s.opts.forward_headers = None;
    }
    let k = mark(r, &mut s);
    let p = match must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    obs.eval(&s.shape());
    let anonymous = s.mode == Mode::Anon || s.opts.protect_sender;
    // outermost view
    if !search(obs, "the packed text", &p.text, &k.content, &s) {
        return;
    }
    if anonymous || !s.route.is_empty() {
        obs.count("sender hidden: searched");
        if !search(obs, "the packed text", &p.text, &k.sender, &s) {
            return;
        }
    } else {
        // the signer is still hidden unless it is the sender
        let m: Vec<_> = k.sender.iter().filter(|x| x.0.starts_with("signer") || x.0.starts_with("issuer")).cloned().collect();
        search(obs, "the packed text", &p.text, &m, &s);
    }
    // each mediator's view
    let mut t = p.text.clone();
    let hdrs: Vec<String> = s.opts.forward_headers.iter().flat_map(|h| h.keys().cloned()).collect();
    for (i, hop) in s.route.iter().enumerate() {
        let w = |x: Value| json!({"detail": x, "hop": i, "layer": t, "scenario": s.brief()});
        let (_, rc, _) = match parts(&t) {
            Ok(x) => x,
            Err(e) => return obs.violation("layer is not an encrypted message", w(json!(e))),
        };
        // to those who cannot open it: nothing of the route but the key it is for
        for (j, h) in s.route.iter().enumerate().skip(i + 1).map(|(j, h)| (j, h.as_str())).chain([(usize::MAX, s.to.as_str())]) {
            let did = h.split('#').next().unwrap();
            if !hop.starts_with(did) && !search(obs, "the text of an earlier layer", &t, &[(if j == usize::MAX { "recipient".into() } else { "later mediator".into() }, did.to_string())], &s) {
                return;
            }
        }
        let med = s.owner(hop).unwrap();
        let key = med.key(&rc[0].0).unwrap_or(&med.ka[0]);
        let o = match open(&t, &rc[0].0, &key.key, &|_| None) {
            Ok(o) => o,
            Err(e) => return obs.violation("layer does not open", w(json!(e))),
        };
        if o.alg != ES {
            return obs.violation("forward layer names its sender", w(json!(o.header)));
        }
        let f: Value = match serde_json::from_slice(&o.plaintext) {
            Ok(f) => f,
            Err(e) => return obs.violation("forward message is not JSON", w(json!(e.to_string()))),
        };
        obs.count("forward layers seen");
        // the mediator: next hop and the opaque message only
        for m in f.as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
            if !["id", "typ", "type", "body", "attachments"].contains(&m.as_str()) && !hdrs.contains(&m) {
                return obs.violation(format!("forward message has a member {m}"), w(f.clone()));
            }
        }
        if f["body"].as_object().map(|b| b.len()) != Some(1) || f["attachments"].as_array().map(|a| a.len()) != Some(1) {
            return obs.violation("forward message tells more than the next hop", w(f.clone()));
        }
        let att = &f["attachments"][0];
        if att.as_object().map(|a| a.keys().any(|k| k != "data" && k != "id" && k != "media_type")).unwrap_or(true) || att["data"].as_object().map(|d| d.len()) != Some(1) {
            return obs.violation("attachment tells more than the message", w(f.clone()));
        }
        let next = &att["data"]["json"];
        if !is_jwe(&next.to_string()) {
            return obs.violation("attached message is not opaque", w(f.clone()));
        }
        let pt = f.to_string();
        if !search(obs, "a mediator's view", &pt, &k.content, &s) {
            return;
        }
        let last = i + 1 == s.route.len();
        if (anonymous || !last) && !search(obs, "a mediator's view", &pt, &k.sender, &s) {
            return;
        }
        t = next.to_string();
    }
    obs.sample(|| json!({"scenario": s.shape(), "marks": k.content.len() + k.sender.len()}));
}

/// A sender that writes to itself is as protected as any other.
fn own(r: &mut Rng, obs: &mut Obs) {
    let s = scn(r, &Knobs { mode: Some(Mode::Auth), routed: Some(false), to_self: 1, small: true, ..Default::default() });
    let p = match must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    obs.eval(&format!("self {}", s.shape()));
    let header: Value = serde_json::from_str::<Value>(&p.text).ok().and_then(|v| unb64(v["protected"].as_str()?)).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
    if s.opts.protect_sender {
        obs.count("protected message to oneself");
        obs.check(header["alg"] == ES && header.get("skid").is_none() && header.get("apu").is_none(), "protected sender visible in the envelope", || json!({"header": header, "scenario": s.brief()}));
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Messages whose every part carries a unique mark are encrypted; the packed text and everything that any base64 string in it decodes
         to is searched for the marks as text, base64 at every alignment, hex and base58, and, when the sender is protected, for the
         DIDs, key ids and public keys of sender and signer. Each mediator layer is opened by an independent implementation: it may hold
         only the forward message's own members, the next hop and one attached encrypted message. Distinct by scenario shape.",
    );
    run.assume("Lengths, timing and traffic are not considered. askar-crypto is replaced by a stand-in over OpenSSL.");
    let n = run.cfg.n(1200, 50_000);
    run.cases("visible", n, |_, r, obs| case(r, obs));
    let n = run.cfg.n(300, 12_000);
    run.cases("to-oneself", n, |_, r, obs| own(r, obs));
    run.require("forward layers seen", 100);
    run.require("sender hidden: searched", 100);
}
