//! Random packing scenarios with everything an oracle needs to know about them.
use crate::dc::{
    algorithms::{AnonCryptAlg, AuthCryptAlg},
    did::{Service, ServiceKind},
    error::Result,
    protocols::routing::try_parse_forward,
    Message, MessagingServiceMetadata, PackEncryptedOptions, UnpackMetadata, UnpackOptions,
};
use crate::{gmsg, refc::*, refjose::{self, is_jwe, is_jws, Opened, Verified}, world::*};
use serde_json::{json, Value};
use std::collections::HashMap;
use vcommon::{gen, Abnormal, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Plain,
    Signed,
    Anon,
    Auth,
}

#[derive(Clone)]
pub struct Scn {
    /// 0 sender, 1 recipient, 2 signer by another party, 3 earlier DID of the sender, 4.. mediators.
    pub parties: Vec<Party>,
    pub mode: Mode,
    pub msg: Message,
    pub to: String,
    pub from: Option<String>,
    pub sign_by: Option<String>,
    pub signer: usize,
    pub opts: PackEncryptedOptions,
    /// Keys of the sender whose secrets the sender holds.
    pub held: Vec<String>,
    /// Routing keys in the order the message passes them.
    pub route: Vec<String>,
    /// (id, transport endpoint) of the service the route comes from.
    pub service: Option<(String, String)>,
    pub from_prior_claims: Option<(Value, String)>,
}

pub const ANON: [AnonCryptAlg; 3] = [AnonCryptAlg::A256cbcHs512EcdhEsA256kw, AnonCryptAlg::Xc20pEcdhEsA256kw, AnonCryptAlg::A256gcmEcdhEsA256kw];

pub fn anon_enc(a: &AnonCryptAlg) -> &'static str {
    match a {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256CBC-HS512",
        AnonCryptAlg::Xc20pEcdhEsA256kw => "XC20P",
        AnonCryptAlg::A256gcmEcdhEsA256kw => "A256GCM",
    }
}
pub fn anon_of(enc: &str) -> AnonCryptAlg {
    ANON.iter().find(|a| anon_enc(a) == enc).unwrap().clone()
}

#[derive(Clone, Default)]
pub struct Knobs {
    /// The sender writes to itself once in so many times; 0 for never.
    pub to_self: u32,
    pub mode: Option<Mode>,
    /// Some(true): always mediators; Some(false): never.
    pub routed: Option<bool>,
    pub signed: Option<bool>,
    pub from_prior: Option<bool>,
    pub small: bool,
    /// Some(false): no two DIDs that are easily confused.
    pub alike: Option<bool>,
    /// Parties may use one key for key agreement and authentication.
    pub dual: bool,
    /// The recipient has very many keys once in so many times; 0 for seldom.
    pub many: u32,
}

pub fn sub(r: &mut Rng, did: &str, kids: &[String], p_url: u32) -> String {
    if !kids.is_empty() && r.chance(p_url, 10) {
        r.pick(kids).clone()
    } else {
        did.to_string()
    }
}

/// A from_prior token made by the reference implementation.
pub fn from_prior_token(r: &mut Rng, iss: &Party, sub: &str) -> (String, Value, String) {
    let k = r.pick(&iss.auth).clone();
    let mut c = json!({"iss": iss.did, "sub": sub});
    if r.bool() {
        c["aud"] = json!(gen::text(r));
    }
    for n in ["exp", "nbf", "iat"] {
        if r.bool() {
            c[n] = json!(gen::u64v(r));
        }
    }
    if r.bool() {
        c["jti"] = json!(gen::text(r));
    }
    let t = refjose::jwt(&json!({"typ": "JWT", "alg": k.key.crv.sign_alg(), "kid": k.kid}), c.to_string().as_bytes(), &k.key);
    (t, c, k.kid)
}

pub struct Route {
    pub services: Vec<Service>,
    /// Added to the mediators' documents: (mediator index, services).
    pub med: Vec<(usize, Vec<Service>)>,
    pub route: Vec<String>,
    /// Service the sender must choose when none is asked for (and its transport endpoint).
    pub chosen: Option<(String, String)>,
    /// A suitable service later in the list that can be asked for by id, with its route and endpoint.
    pub other: Option<(String, String, Vec<String>)>,
}

fn accept(r: &mut Rng, ok: bool) -> Option<Vec<String>> {
    if ok {
        match r.below(4) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec!["didcomm/v2".into()]),
            _ => Some(vec!["didcomm/aip2;env=rfc19".into(), "didcomm/v2".into()]),
        }
    } else {
        Some(vec![(*r.pick(&["didcomm/aip1", "didcomm/v1", "didcomm/v2;env=x", "DIDComm/v2", ""])).to_string()])
    }
}

fn endpoint(r: &mut Rng) -> String {
    let (h, w) = (gen::word(r, 4).to_lowercase(), gen::word(r, 5));
    // what an endpoint is made of is its owner's business: it is handed to the sender as written
    match r.below(14) {
        0 => format!("https://{h}.example.com/{w}/"),
        1 => format!("https://{h}.example.com//{w}//"),
        2 => format!("HTTPS://{h}.Example.COM:8443/{w}?q=did:example:{w}&x=%20%2F#frag"),
        3 => format!("wss://user@{h}.example.com:443/"),
        4 => format!("mailto:{w}@{h}.example.com"),
        5 => format!(" https://{h}.example.com/{w} "),
        6 => format!("https://{h}.example.com/é/{w}/\u{2028}\\\""),
        7 => (*r.pick(&["", "/", "#", "x", "DID:example:upper", "didcomm:transport/queue", "urn:did:example:1"])).to_string(),
        _ => format!("https://{h}.example.com/{w}"),
    }
}

fn other_service(r: &mut Rng, id: String) -> Service {
    let mut v = json!({"uri": endpoint(r)});
    if r.bool() {
        v["accept"] = json!(["didcomm/v2"]);
        v["routingKeys"] = json!(["did:example:nobody#k"]);
    }
    Service { id, service_endpoint: ServiceKind::Other { value: v } }
}

fn routing_keys(r: &mut Rng, meds: &[Party], n: usize) -> Vec<String> {
    let mut idx: Vec<usize> = (0..meds.len()).collect();
    r.shuffle(&mut idx);
    idx.truncate(n);
    idx.into_iter()
        .map(|i| {
            let kids: Vec<String> = meds[i].ka.iter().map(|k| k.kid.clone()).collect();
            sub(r, &meds[i].did, &kids, 6)
        })
        .collect()
}

/// Services of a recipient. Mediator parties are `meds`.
pub fn route(r: &mut Rng, did: &str, meds: &[Party], routed: Option<bool>) -> Route {
    let mut services = vec![];
    let mut med = vec![];
    let mut n = 0;
    let mut id = |r: &mut Rng| {
        n += 1;
        format!("{did}#{}{n}", r.pick(&["didcomm-", "svc", "s"]))
    };
    // unsuitable ones in front
    for _ in 0..r.below(3) {
        let i = id(r);
        if r.bool() {
            services.push(other_service(r, i));
        } else {
            let a = accept(r, false);
            let (u, k) = (endpoint(r), routing_keys(r, meds, 1));
            services.push(service(i, u, a, k));
        }
    }
    let mut one = |r: &mut Rng, services: &mut Vec<Service>, med: &mut Vec<(usize, Vec<Service>)>, routed: Option<bool>| {
        let i = id(r);
        let a = accept(r, true);
        let want = routed.unwrap_or_else(|| r.chance(2, 3));
        let via_did = want && med.is_empty() && r.chance(1, 3);
        let nk = if !want {
            0
        } else if via_did {
            r.below(3)
        } else {
            r.range(1, if meds.len() > 4 { meds.len() } else { 3 })
        };
        let mut keys = routing_keys(r, meds, nk);
        if via_did {
            let m = r.below(meds.len());
            // the mediator must not be met twice: its layers would be opened together
            keys.retain(|k| !k.starts_with(&meds[m].did));
            let mut ms = vec![];
            if r.bool() {
                ms.push(other_service(r, format!("{}#o", meds[m].did)));
            }
            if r.bool() {
                let (u, a) = (endpoint(r), accept(r, false));
                ms.push(service(format!("{}#x", meds[m].did), u, a, vec![]));
            }
            let (u, a2) = (endpoint(r), accept(r, true));
            ms.push(service(format!("{}#m", meds[m].did), u.clone(), a2, vec![]));
            med.push((m, ms));
            services.push(service(i.clone(), meds[m].did.clone(), a, keys.clone()));
            let mut rt = vec![meds[m].did.clone()];
            rt.extend(keys);
            (i, u, rt)
        } else {
            let u = endpoint(r);
            services.push(service(i.clone(), u.clone(), a, keys.clone()));
            (i, u, keys)
        }
    };
    if routed.is_none() && r.chance(1, 5) {
        return Route { services, med, route: vec![], chosen: None, other: None };
    }
    let c = one(r, &mut services, &mut med, routed);
    let o = if r.bool() { Some(one(r, &mut services, &mut med, None)) } else { None };
    Route { services, med, route: c.2, chosen: Some((c.0, c.1)), other: o }
}

pub fn scn(r: &mut Rng, k: &Knobs) -> Scn {
    let mode = k.mode.unwrap_or_else(|| *r.pick(&[Mode::Plain, Mode::Signed, Mode::Anon, Mode::Anon, Mode::Auth, Mode::Auth, Mode::Auth]));
    let mut rc = curves(r);
    if k.many > 0 && r.chance(1, k.many) {
        let n = r.range(18, 30);
        rc = vec![*r.pick(&rc); n];
    }
    let mut sc = curves(r);
    // `to` decides which curves can be used
    let mut rcpt = party(r, &rc);
    let kids: Vec<String> = rcpt.ka.iter().map(|k| k.kid.clone()).collect();
    let to = sub(r, &rcpt.did, &kids, 4);
    let usable: Vec<Crv> = match rcpt.key(&to) {
        Some(e) => vec![e.key.crv],
        None => rc.clone(),
    };
    if !sc.iter().any(|c| usable.contains(c)) {
        let c = *r.pick(&usable);
        let i = r.below(sc.len() + 1);
        sc.insert(i, c);
    }
    // other parties, some with a DID easily taken for another party's
    let mut dids = vec![rcpt.did.clone()];
    let near = k.alike != Some(false) && r.chance(1, 4);
    let mut other = |r: &mut Rng, c: &[Crv]| {
        let mut d = did(r);
        if near && r.bool() {
            let o = r.pick(&dids).clone();
            d = did_alike(r, &o);
        }
        while dids.contains(&d) {
            d = did(r);
        }
        dids.push(d.clone());
        party_as(r, d, c)
    };
    let to_self = k.to_self > 0 && r.chance(1, k.to_self);
    let sender = if to_self { rcpt.clone() } else { other(r, &sc) };
    let mut parties = vec![sender, rcpt.clone()];
    let n = if r.chance(1, 30) { 12 } else { 6 };
    for _ in 0..n {
        let c = curves(r);
        let p = other(r, &c);
        parties.push(p);
    }
    if k.dual {
        for p in &mut parties {
            if r.chance(1, 6) {
                dual(r, p);
            }
        }
        if to_self {
            parties[0] = parties[1].clone();
        }
    }
    let encrypting = matches!(mode, Mode::Anon | Mode::Auth);
    let mut opts = PackEncryptedOptions {
        protect_sender: r.bool(),
        forward: k.routed != Some(false) && (k.routed == Some(true) || r.chance(3, 4)),
        forward_headers: None,
        messaging_service: None,
        enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
        enc_alg_anon: r.pick(&ANON).clone(),
    };
    if r.chance(1, 3) {
        opts.forward_headers = Some((0..r.range(0, 3)).map(|_| (gen::header_name(r), gen::json(r, 1))).collect());
    }
    let mut rt = Route { services: vec![], med: vec![], route: vec![], chosen: None, other: None };
    if encrypting && (k.routed != Some(false) || r.bool()) && (k.routed == Some(true) || r.chance(1, 2)) {
        let meds: Vec<Party> = parties[4..].to_vec();
        rt = route(r, &rcpt.did, &meds, if k.routed == Some(true) { Some(true) } else { None });
        rcpt.services = rt.services.clone();
        parties[1].services = rt.services.clone();
        if to_self {
            parties[0].services = rt.services.clone();
        }
        for (m, s) in &rt.med {
            parties[4 + m].services = s.clone();
        }
    }
    let mut service = rt.chosen.clone();
    let mut hops = rt.route.clone();
    if let Some((id, u, keys)) = &rt.other {
        if k.routed != Some(true) && r.bool() {
            opts.messaging_service = Some(id.clone());
            service = Some((id.clone(), u.clone()));
            hops = keys.clone();
        }
    }
    if opts.messaging_service.is_none() && r.chance(1, 3) {
        opts.messaging_service = rt.chosen.as_ref().map(|c| c.0.clone());
    }
    if !opts.forward {
        hops.clear();
    }
    if hops.is_empty() {
        service = None;
    }
    // sender
    let mut held: Vec<String> = parties[0].ka.iter().map(|k| k.kid.clone()).collect();
    let mut from = None;
    if mode == Mode::Auth {
        let fit: Vec<String> = parties[0].ka.iter().filter(|k| usable.contains(&k.key.crv)).map(|k| k.kid.clone()).collect();
        let keep = r.pick(&fit).clone();
        held.retain(|h| *h == keep || r.chance(2, 3));
        from = Some(sub(r, &parties[0].did, &[keep], 4));
    }
    // signer
    let signer = if r.chance(3, 4) { 0 } else { 2 };
    let sign = match mode {
        Mode::Signed => true,
        Mode::Plain => false,
        _ => k.signed.unwrap_or_else(|| r.chance(1, 2)),
    };
    let sign_by = if sign {
        let kids: Vec<String> = parties[signer].auth.iter().map(|k| k.kid.clone()).collect();
        Some(sub(r, &parties[signer].did, &kids, 5))
    } else {
        None
    };
    // message
    let mut msg = gmsg::message(r);
    if k.small {
        msg.attachments = None;
    }
    if r.chance(2, 3) || mode == Mode::Auth && r.bool() {
        msg.from = Some(parties[0].did.clone());
    }
    if r.chance(2, 3) {
        let mut t: Vec<String> = (0..gen::count(r, 3)).map(|_| did(r)).collect();
        let i = r.below(t.len() + 1);
        t.insert(i, parties[1].did.clone());
        msg.to = Some(t);
    }
    let mut fpc = None;
    if k.from_prior.unwrap_or_else(|| r.chance(1, 4)) {
        let (t, c, kid) = from_prior_token(r, &parties[3].clone(), &parties[0].did.clone());
        msg.from_prior = Some(t);
        fpc = Some((c, kid));
    }
    Scn { parties, mode, msg, to, from, sign_by, signer, opts, held, route: hops, service, from_prior_claims: fpc }
}

pub struct Packed {
    pub text: String,
    pub from_kid: Option<String>,
    pub sign_by_kid: Option<String>,
    pub to_kids: Option<Vec<String>>,
    pub service: Option<MessagingServiceMetadata>,
}

impl Scn {
    pub fn dr(&self) -> Dr {
        Dr::new(&self.parties)
    }
    /// What the sending side holds: the sender's chosen key agreement secrets and the signers' keys.
    pub fn sender_sr(&self) -> Sr {
        Sr::keys(self.parties[0].ka.iter().filter(|k| self.held.contains(&k.kid)).chain(&self.parties[0].auth).chain(&self.parties[2].auth))
    }
    pub fn pack_with(&self, dr: &Dr, sr: &Sr) -> std::result::Result<Result<Packed>, Abnormal> {
        run(async {
            match self.mode {
                Mode::Plain => {
                    let text = self.msg.pack_plaintext(dr).await?;
                    Ok(Packed { text, from_kid: None, sign_by_kid: None, to_kids: None, service: None })
                }
                Mode::Signed => {
                    let (text, m) = self.msg.pack_signed(self.sign_by.as_deref().unwrap(), dr, sr).await?;
                    Ok(Packed { text, from_kid: None, sign_by_kid: Some(m.sign_by_kid), to_kids: None, service: None })
                }
                _ => {
                    let (text, m) = self.msg.pack_encrypted(&self.to, self.from.as_deref(), self.sign_by.as_deref(), dr, sr, &self.opts).await?;
                    Ok(Packed { text, from_kid: m.from_kid, sign_by_kid: m.sign_by_kid, to_kids: Some(m.to_kids), service: m.messaging_service })
                }
            }
        })
    }
    pub fn pack(&self) -> std::result::Result<Result<Packed>, Abnormal> {
        self.pack_with(&self.dr(), &self.sender_sr())
    }
    /// Recipient keys a conforming sender may address: one set per curve it may choose.
    pub fn target_sets(&self) -> Vec<(Crv, Vec<String>)> {
        let p = &self.parties[1];
        let mut v = vec![];
        for c in [Crv::X25519, Crv::P256] {
            let s: Vec<String> = p.ka.iter().filter(|k| k.key.crv == c && (self.to == p.did || self.to == k.kid)).map(|k| k.kid.clone()).collect();
            let sender_ok = self.mode != Mode::Auth
                || self.parties[0].ka.iter().any(|k| k.key.crv == c && self.held.contains(&k.kid) && (self.from.as_deref() == Some(&self.parties[0].did) || self.from.as_deref() == Some(&k.kid)));
            if !s.is_empty() && sender_ok {
                v.push((c, s));
            }
        }
        v
    }
    pub fn owner(&self, did_or_url: &str) -> Option<&Party> {
        let d = did_or_url.split('#').next().unwrap();
        self.parties.iter().find(|p| p.did == d)
    }
    pub fn public(&self, kid: &str) -> Option<Key> {
        self.owner(kid)?.key(kid).map(|k| k.key.public())
    }
    pub fn shape(&self) -> String {
        format!(
            "{:?}{}{}{}{}p{}f{}r{}a{}k{}h{}{}{}",
            self.mode,
            self.to.contains('#') as u8,
            self.from.as_ref().map(|f| f.contains('#') as u8 + 1).unwrap_or(0),
            self.sign_by.as_ref().map(|f| f.contains('#') as u8 + 1).unwrap_or(0),
            self.signer,
            self.opts.protect_sender as u8,
            self.opts.forward as u8,
            self.route.len(),
            anon_enc(&self.opts.enc_alg_anon),
            self.parties[1].ka.iter().map(|k| if k.key.crv == Crv::P256 { 'p' } else { 'x' }).collect::<String>(),
            self.held.len(),
            self.from_prior_claims.is_some() as u8,
            gmsg::shape(&self.msg)
        )
    }
    pub fn brief(&self) -> Value {
        json!({
            "mode": format!("{:?}", self.mode), "to": self.to, "from": self.from, "sign_by": self.sign_by,
            "options": format!("{:?}", self.opts), "route": self.route, "message": gmsg::message_json(&self.msg),
            "recipient_keys": self.parties[1].ka.iter().map(|k| format!("{} {:?} {:?} {:?}", k.kid, k.key.crv, k.repr, k.srepr)).collect::<Vec<_>>(),
            "sender_keys": self.parties[0].ka.iter().map(|k| format!("{} {:?} held={}", k.kid, k.key.crv, self.held.contains(&k.kid))).collect::<Vec<_>>(),
        })
    }
    /// Passes the packed message through its mediators with the library; returns what reaches the recipient.
    pub fn deliver(&self, packed: &str) -> std::result::Result<String, String> {
        let dr = self.dr();
        let mut m = packed.to_string();
        for hop in &self.route {
            let p = self.owner(hop).ok_or("no such mediator")?;
            let sr = Sr::party(p);
            let (fw, meta) = unpack(&m, &dr, &sr, &UnpackOptions::default()).map_err(|e| e.to_string())?.map_err(|e| format!("mediator {hop}: {e:?}"))?;
            if meta.re_wrapped_in_forward {
                return Err("mediator saw a re-wrapped message".into());
            }
            let f = try_parse_forward(&fw).ok_or_else(|| format!("mediator {hop} did not get a forward message"))?;
            m = f.forwarded_msg.to_string();
        }
        Ok(m)
    }
}

pub fn unpack(m: &str, dr: &Dr, sr: &Sr, o: &UnpackOptions) -> std::result::Result<Result<(Message, UnpackMetadata)>, Abnormal> {
    run(Message::unpack(m, dr, sr, o))
}

pub fn opts(all: bool, unwrap: bool) -> UnpackOptions {
    UnpackOptions { expect_decrypt_by_all_keys: all, unwrap_re_wrapping_forward: unwrap }
}

pub fn headers(h: &HashMap<String, Value>) -> Value {
    Value::Object(h.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
}

/// Every layer of a packed message, opened by the reference implementation along the model's route.
pub struct Peeled {
    /// Forward layers, outermost first, with the forward message each carries.
    pub hops: Vec<(Opened, Value)>,
    /// Encryption layers of the recipient's own message, outermost first.
    pub inner: Vec<Opened>,
    pub signed: Option<(Verified, String)>,
    pub plaintext: Value,
    pub inner_text: String,
}

impl Scn {
    /// Opens everything with `pick` choosing which of the addressed keys is used.
    pub fn peel(&self, packed: &str, pick: usize) -> std::result::Result<Peeled, String> {
        let mut t = packed.to_string();
        let mut hops = vec![];
        let open_with = |t: &str, p: &Party| -> std::result::Result<Opened, String> {
            let (_, rc, _) = refjose::parts(t)?;
            if rc.is_empty() {
                return Err("no recipients".into());
            }
            let kid = &rc[pick % rc.len()].0;
            let k = p.ka.iter().find(|k| &k.kid == kid).ok_or(format!("addressed to {kid}, which is not a key agreement key of {}", p.did))?;
            refjose::open(t, kid, &k.key, &|id| self.public(id))
        };
        for (i, hop) in self.route.iter().enumerate() {
            let o = open_with(&t, self.owner(hop).ok_or("no such mediator")?).map_err(|e| format!("hop {i}: {e}"))?;
            let f: Value = serde_json::from_slice(&o.plaintext).map_err(|e| format!("hop {i}: forward message: {e}"))?;
            t = f["attachments"][0]["data"]["json"].to_string();
            hops.push((o, f));
        }
        let inner_text = t.clone();
        let mut inner = vec![];
        while is_jwe(&t) {
            let o = open_with(&t, &self.parties[1]).map_err(|e| format!("recipient: {e}"))?;
            t = String::from_utf8(o.plaintext.clone()).map_err(|_| "recipient: not utf-8")?;
            inner.push(o);
        }
        let mut signed = None;
        if is_jws(&t) {
            let v = refjose::verify_jws(&t, &|k| self.public(k)).map_err(|e| format!("signature: {e}"))?;
            let text = t.clone();
            t = String::from_utf8(v.payload.clone()).map_err(|_| "signed payload: not utf-8")?;
            signed = Some((v, text));
        }
        if vcommon::jsonutil::no_duplicates(&t) != Ok(true) {
            return Err("plaintext repeats a member".into());
        }
        let plaintext = serde_json::from_str(&t).map_err(|e| format!("plaintext: {e}"))?;
        Ok(Peeled { hops, inner, signed, plaintext, inner_text })
    }
}
