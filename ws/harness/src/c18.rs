//! C18: decryption by all held keys, or by the first reported.
use crate::{
    dc::{error::ErrorKind, Message},
    gmsg,
    refc::*,
    refjose::*,
    scn::*,
    world::*,
};
use serde_json::{json, Value};
use vcommon::{gen, Obs, Rng, Runner};

/// What was done to one recipient's entry.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Damage {
    None,
    /// One bit of the wrapped key.
    Flip,
    /// Wrapped key of another length, or empty.
    Length,
    /// Another recipient's wrapped key.
    Swap,
    /// Another content key, wrapped correctly.
    OtherCek,
    /// Wrapped for another key pair.
    OtherKey,
}

fn damage(r: &mut Rng, plan: &Plan, s: &mut Sealed, i: usize, d: Damage) -> bool {
    match d {
        Damage::None => {}
        Damage::Flip => {
            let n = s.recips[i].1.len();
            let (b, k) = (r.below(n), r.below(8));
            s.recips[i].1[b] ^= 1 << k;
        }
        Damage::Length => match r.below(3) {
            0 => s.recips[i].1.clear(),
            1 => {
                let n = r.below(s.recips[i].1.len());
                s.recips[i].1.truncate(n)
            }
            _ => {
                let x = r.bytes(8);
                s.recips[i].1.extend(x)
            }
        },
        Damage::Swap => {
            let j = (i + 1) % s.recips.len();
            if j == i {
                return false;
            }
            s.recips[i].1 = plan.wraps(&s.tag, &plan.cek)[j].1.clone();
        }
        Damage::OtherCek => {
            let c = r.bytes(plan.cek.len());
            s.recips[i].1 = plan.wraps(&s.tag, &c)[i].1.clone();
        }
        Damage::OtherKey => {
            let mut p = plan.clone();
            p.recips[i].1 = Key::gen(r, plan.epk.crv);
            s.recips[i].1 = p.wraps(&s.tag, &plan.cek)[i].1.clone();
        }
    }
    true
}

const KINDS: [Damage; 5] = [Damage::Flip, Damage::Length, Damage::Swap, Damage::OtherCek, Damage::OtherKey];

struct Layer {
    text: String,
    sound: Vec<bool>,
}

fn layer(r: &mut Rng, enc: &str, rc: &[(String, Key)], sender: Option<(&str, &Key)>, pt: &[u8], dmg: &[Damage]) -> Layer {
    let plan = Plan::new(r, enc, rc, sender);
    let mut s = plan.seal(pt);
    let mut sound = vec![];
    for (i, d) in dmg.iter().enumerate() {
        let did = damage(r, &plan, &mut s, i, *d);
        sound.push(*d == Damage::None || !did);
    }
    Layer { text: s.text(), sound }
}

/// Some(success?) where the property decides.
fn verdict(sound: &[bool], order: &[usize], all: bool) -> Option<bool> {
    if order.is_empty() {
        return Some(false);
    }
    if all {
        Some(order.iter().all(|i| sound[*i]))
    } else if sound[order[0]] {
        Some(true)
    } else if order.iter().all(|i| !sound[*i]) {
        Some(false)
    } else {
        None
    }
}

fn case(r: &mut Rng, obs: &mut Obs) {
    let crv = if r.bool() { Crv::X25519 } else { Crv::P256 };
    let n = if r.chance(1, 12) { r.range(6, 20) } else { r.range(1, 5) };
    let mut rcpt = party(r, &vec![crv; n]);
    rcpt.services.clear();
    let mut snd = party(r, &[crv, crv]);
    while snd.did == rcpt.did {
        snd = party(r, &[crv, crv]);
    }
    let sk = r.pick(&snd.ka).clone();
    let shape = r.below(3); // anon, auth, anon around auth
    let mut rc: Vec<(String, Key)> = rcpt.ka.iter().map(|k| (k.kid.clone(), k.key.public())).collect();
    if r.chance(1, 4) {
        r.shuffle(&mut rc);
    }
    // not all of the recipient's keys need be addressed
    if r.chance(1, 4) {
        let m = r.range(1, rc.len());
        rc.truncate(m);
    }
    let m = rc.len();
    let other_held = r.chance(1, 4);
    let dmg = |r: &mut Rng| -> Vec<Damage> {
        let p = if other_held && r.chance(4, 5) { 0 } else { r.below(4) as u32 };
        (0..m).map(|_| if r.chance(p, 4) { *r.pick(&KINDS) } else { Damage::None }).collect()
    };
    let mut msg = gmsg::message(r);
    msg.attachments = None;
    msg.from = None;
    msg.from_prior = None;
    let pt = gmsg::message_json(&msg).to_string();
    let held: Vec<usize> = match r.below(6) {
        0 => vec![],
        1 => (0..m).collect(),
        _ => (0..m).filter(|_| r.chance(2, 3)).collect(),
    };
    let rev = r.bool();
    let mut order = held.clone();
    if rev {
        order.reverse();
    }
    let (inner, outer);
    let mut text;
    match shape {
        0 => {
            let e = *r.pick(&ENCS);
            let d = dmg(r);
            let l = layer(r, e, &rc, None, pt.as_bytes(), &d);
            text = l.text.clone();
            outer = Some(l);
            inner = None;
        }
        1 => {
            let d = dmg(r);
            let l = layer(r, ENCS[0], &rc, Some((&sk.kid, &sk.key)), pt.as_bytes(), &d);
            text = l.text.clone();
            inner = Some(l);
            outer = None;
        }
        _ => {
            let d = dmg(r);
            let l = layer(r, ENCS[0], &rc, Some((&sk.kid, &sk.key)), pt.as_bytes(), &d);
            let d = if r.bool() { vec![Damage::None; m] } else { dmg(r) };
            let e = *r.pick(&ENCS);
            let o = layer(r, e, &rc, None, l.text.as_bytes(), &d);
            text = o.text.clone();
            inner = Some(l);
            outer = Some(o);
        }
    }
    // a mediator may have wrapped it once more for the same recipient
    let wrapped = r.chance(1, 4);
    if wrapped {
        let next = if r.bool() || held.is_empty() { rcpt.did.clone() } else { rc[*r.pick(&held)].0.clone() };
        let f = json!({"id": "f", "typ": "application/didcomm-plain+json", "type": "https://didcomm.org/routing/2.0/forward", "body": {"next": next},
            "attachments": [{"data": {"json": serde_json::from_str::<Value>(&text).unwrap()}}]});
        let e = *r.pick(&ENCS);
        text = layer(r, e, &rc, None, f.to_string().as_bytes(), &vec![Damage::None; m]).text;
        obs.count("wrapped in a forward");
    }
    let entries: Vec<&KeyEntry> = held.iter().map(|i| rcpt.key(&rc[*i].0).unwrap()).collect();
    let mut secrets: Vec<_> = entries.iter().map(|k| k.secret()).collect();
    // what is held for a key need not be its secret
    let mut alien = vec![false; m];
    if other_held {
        for (n, i) in held.iter().enumerate() {
            if r.chance(1, 3) {
                let other = if crv == Crv::X25519 { Crv::P256 } else { Crv::X25519 };
                let c = *r.pick(&[other, other, crv, Crv::Ed25519]);
                secrets[n] = KeyEntry::gen(r, rc[*i].0.clone(), c).secret();
                alien[*i] = true;
            }
        }
        obs.count("another key held under the recipient's name");
    }
    // unrelated secrets change nothing
    if r.bool() {
        secrets.extend(rcpt.auth.iter().map(|k| k.secret()));
        secrets.extend(snd.ka.iter().map(|k| k.secret()));
        secrets.extend(rcpt.ka.iter().filter(|k| !rc.iter().any(|x| x.0 == k.kid)).map(|k| k.secret()));
    }
    let sr = Sr::of(secrets).reversed(rev);
    let dr = Dr::new([&snd, &rcpt]);
    for all in [true, false] {
        let v: Vec<Option<bool>> = [&outer, &inner].iter().filter_map(|l| l.as_ref()).map(|l| verdict(&l.sound.iter().zip(&alien).map(|(s, a)| *s && !*a).collect::<Vec<_>>(), &order, all)).collect();
        let want = if v.contains(&Some(false)) {
            Some(false)
        } else if v.iter().all(|x| *x == Some(true)) {
            Some(true)
        } else {
            None
        };
        let sounds: String = [&outer, &inner].iter().filter_map(|l| l.as_ref()).map(|l| l.sound.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>() + "/").collect();
        obs.eval(&format!("{shape}{wrapped}{crv:?}{sounds}{held:?}{alien:?}{rev}{all}"));
        let got = unpack(&text, &dr, &sr, &opts(all, wrapped || r.bool()));
        let w = || json!({"all": all, "wrapped in a forward": wrapped, "layers": if shape == 0 { "anon" } else if shape == 1 { "auth" } else { "anon(auth)" }, "sound per layer": sounds, "held (reported order)": order, "held but another key": alien, "got": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(|m| m.0.id.clone()))), "text": text});
        match &got {
            Ok(Ok((m, _))) => {
                obs.check(gmsg::same(m, &msg), "another message", w);
                if order.is_empty() {
                    obs.violation("unpacked without a held key", w());
                } else if want == Some(false) {
                    obs.violation(if all { "unpacked although a held key does not decrypt" } else { "unpacked although no held key decrypts" }, w());
                }
                obs.count(&format!("all={all}: unpacked"));
            }
            Ok(Err(e)) => {
                if order.is_empty() {
                    obs.check(e.kind() == ErrorKind::SecretNotFound, "no held key reported as another kind", w);
                    obs.count("no key held: SecretNotFound");
                } else if want == Some(true) {
                    obs.violation(if all { "refused although all held keys decrypt" } else { "refused although the first held key decrypts" }, w());
                }
                obs.count(&format!("all={all}: refused"));
            }
            Err(a) => obs.violation("abnormal", json!(a.to_string())),
        }
        if want.is_none() {
            obs.count("not judged");
        }
    }
}

/// What the library packs is opened with every subset of the keys held, with and without the option.
fn honest(r: &mut Rng, obs: &mut Obs) {
    let mode = Some(if r.bool() { Mode::Anon } else { Mode::Auth });
    let s = scn(r, &Knobs { mode, small: true, routed: Some(false), ..Default::default() });
    let p = match crate::c01::must_pack(&s, obs) {
        Some(p) => p,
        None => return,
    };
    let kids = p.to_kids.clone().unwrap_or_default();
    let dr = s.dr();
    for mask in 0..(1usize << kids.len().min(4)) {
        let held: Vec<&KeyEntry> = kids.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).filter_map(|(_, k)| s.parties[1].key(k)).collect();
        for all in [true, false] {
            let sr = Sr::keys(held.clone()).reversed(r.bool());
            obs.eval(&format!("h{}{mask}/{}{all}{:?}", s.shape(), kids.len(), s.mode));
            let got = unpack(&p.text, &dr, &sr, &opts(all, r.bool()));
            let w = || json!({"held": mask, "of": kids, "all": all, "got": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(|m| m.0.id.clone()))), "scenario": s.brief()});
            match &got {
                Ok(Ok((m, _))) => {
                    obs.check(mask != 0, "unpacked without a held key", w);
                    obs.check(gmsg::same(m, &s.msg), "another message", w);
                }
                Ok(Err(e)) => {
                    obs.check(mask == 0, "refused although all held keys decrypt", w);
                    obs.check(mask != 0 || e.kind() == ErrorKind::SecretNotFound, "no held key reported as another kind", w);
                }
                Err(a) => obs.violation("abnormal", json!(a.to_string())),
            }
        }
    }
}

pub fn run(run: &mut Runner) {
    run.rule(
        "Envelopes of 1..5 recipients, anonymous, authenticated or both, built by an independent implementation with chosen recipients' wrapped keys damaged
         (bit, length, another recipient's, another content key, another key pair) or another key (often of another curve) held under a recipient's name, unpacked with every kind of held subset and reporting order, with and without the option;
         a model says which must and which must not open. Distinct = (layers, curve, sound pattern per layer, held subset, order, option).",
    );
    run.assume("Without the option, when the first reported key does not decrypt but a later one does, either answer is accepted.");
    let n = run.cfg.n(12_000, 600_000);
    run.cases("damaged", n, |_, r, obs| case(r, obs));
    let n = run.cfg.n(1000, 40_000);
    run.cases("honest", n, |_, r, obs| honest(r, obs));
    run.require("all=true: refused", 1000);
    run.require("all=true: unpacked", 500);
    run.require("no key held: SecretNotFound", 300);
}
