//! Evidence made up by attackers. C10, C11.
use std::{collections::BTreeSet, sync::Arc, sync::OnceLock};

use manul::{
    protocol::{EvidenceError, Protocol, RoundId},
    session::{Evidence, Message, SessionId, WireFormat},
};
use serde::Serialize;
use serde_json::{json, Value};

use crate::{
    byz::*,
    chain::*,
    ensure, fail,
    net::*,
    params::{de, ser, Json, Vid, SP},
    proto::*,
    runner::{facet, guarded, Check, Ctx, Fail},
    util::Gen,
    wire::*,
    with_both,
};

type CaseRes = Result<(), Fail>;

/// A signed message part somebody could get hold of.
#[derive(Clone)]
pub struct Src {
    v: Value,
    kind: u8,
    by: Vid,
    sess: u8,
    pos: Pos,
    rid: Value,
}

#[derive(Clone)]
enum Slot {
    /// A signed part; what kind of part, made in which session and round, by whom (if known)
    Part { path: Path, kind: u8, pos: Pos, sess: u8, by: Vid },
    /// A signed part of unknown origin
    Unknown { path: Path },
    /// A signed hash
    Hash { path: Path },
}

#[derive(Clone)]
struct Base {
    v: Value,
    guilty: Vid,
    slots: Vec<Slot>,
    kind: String,
    /// For protocol errors, which one
    sort: Option<u8>,
}

fn keys_of(v: &Value) -> Option<BTreeSet<String>> {
    v.as_object().map(|o| o.keys().cloned().collect())
}

/// Finds the signed parts and hashes in a piece of evidence.
fn slots_of(v: &Value, srcs: &[Src]) -> Vec<Slot> {
    let mut out = Vec::new();
    let Some(sample) = srcs.first().and_then(|s| keys_of(&s.v)) else { return out };
    let Some(Key::S(sig)) = keys().and_then(|k| k.sig.first()).and_then(|p| p.first()) else { return out };
    let mut inside: Vec<Path> = Vec::new();
    for path in paths(v, false) {
        if inside.iter().any(|p| path.starts_with(p)) {
            continue;
        }
        let Some(x) = at(v, &path) else { continue };
        let Some(ks) = keys_of(x) else { continue };
        if ks == sample {
            inside.push(path.clone());
            out.push(match srcs.iter().find(|s| s.v == *x) {
                Some(s) => Slot::Part { path, kind: s.kind, pos: s.pos, sess: s.sess, by: s.by },
                None => Slot::Unknown { path },
            });
        } else if ks.contains(sig) {
            inside.push(path.clone());
            out.push(Slot::Hash { path });
        }
    }
    out
}

struct Mat {
    srcs: Vec<Src>,
    hashes: Vec<(Vid, Value)>,
    bases: Vec<Base>,
    /// The number of bases that are genuine evidence of this case
    genuine: usize,
    nums: Vec<u8>,
    ids: Vec<Vid>,
    clean: BTreeSet<Vid>,
}

fn sources<T: Tree, F: WireFormat>(sc: &Scene<T, F>) -> Vec<Src> {
    let mut out: Vec<Src> = Vec::new();
    let Some(k) = keys() else { return out };
    let own: Vec<(Pos, usize, Value)> =
        sc.net.pool.iter().flatten().map(|(p, b, _, m)| (*p, *b, to_v(m))).collect();
    let all = own
        .into_iter()
        .map(|(p, b, v)| (0u8, p, b, v))
        .chain(sc.forged.iter().map(|(p, b, _, v)| (0u8, *p, *b, v.clone())))
        .chain(sc.foreign.iter().map(|(p, b, _, v)| (1u8, *p, *b, v.clone())));
    for (sess, pos, by, v) in all {
        let Some(rid) = sc.net.rids.get(&pos) else { continue };
        let rid = to_v(rid);
        for kind in KINDS {
            let Some(x) = v.get(&k.part[kind as usize]) else { continue };
            // broadcasts are the same in all messages of the round
            if out.iter().rev().take(32).any(|s| s.kind == kind && s.v == *x) {
                continue;
            }
            out.push(Src { v: x.clone(), kind, by: sc.net.plan.vid(by), sess, pos, rid: rid.clone() });
        }
    }
    out
}

/// The pairs of an echo pack.
fn pack_of(part: &Value) -> Option<Vec<Value>> {
    let b = payload_of(part)?;
    let v: Value = serde_json::from_slice(&b).ok()?;
    at(&v, &list_of(&v)?)?.as_array().cloned()
}

fn base_of<P: Protocol<Vid> + Serialize, F: WireFormat>(ev: &Evidence<P, SP<F>>, srcs: &[Src]) -> Base {
    let v = to_v(ev);
    let slots = slots_of(&v, srcs);
    let sort = error_leaf::<F>(&v, &slots).and_then(|(p, hex)| {
        let s = at(&v, &p)?.as_str()?;
        let b = if hex { unhex(s) } else { unbase64(s) }?;
        error_sort::<F>(&b)
    });
    Base { slots, v, guilty: *ev.guilty_party(), kind: kind_of(ev), sort }
}

fn evidence_of<T: Tree, F: WireFormat>(sc: &Scene<T, F>) -> Vec<&Evidence<T::Protocol, SP<F>>> {
    let mut out = Vec::new();
    for i in sc.honest() {
        if let St::Done(r) = &sc.net.nodes[i].st {
            out.extend(r.provable_errors.values());
        }
    }
    out
}

/// Where the parts are and of what kind.
fn kinds_of(b: &Base) -> Vec<(usize, u8)> {
    let mut v: Vec<(usize, u8)> = b
        .slots
        .iter()
        .map(|s| match s {
            Slot::Part { path, kind, pos, .. } => (depth(path), *kind + 3 * pos.echo as u8),
            Slot::Unknown { path } => (depth(path), 8),
            Slot::Hash { path } => (depth(path), 9),
        })
        .collect();
    v.sort();
    v
}

/// One piece of evidence of every kind, from fixed scenes.
fn templates() -> &'static Vec<Base> {
    static T: OnceLock<Vec<Base>> = OnceLock::new();
    T.get_or_init(|| {
        let mut out: Vec<Base> = Vec::new();
        for seed in 0..400 {
            let g = &mut Gen::random(seed);
            let mut ctx = Ctx::default();
            let knobs = Knobs { nmin: 3, nmax: 4, stages: 3, full: 7, echo: 6, ..BYZ.knobs };
            let mut cfg = gen_cfg(g, knobs);
            // the parties of the templates must not be those of the cases: they did misbehave
            cfg.ids.iter_mut().for_each(|i| *i = 20_000 + *i % 10_000);
            let cfgs = vec![Arc::new(cfg)];
            let Ok(sc) = scene::<Entry<0>, Json>(g, &mut ctx, cfgs, ByzKnobs { knobs, twist: 6, ..BYZ }) else { continue };
            let srcs = sources(&sc);
            for ev in evidence_of(&sc) {
                let b = base_of(ev, &srcs);
                // one of each kind and number of attached parts
                if !out.iter().any(|o| o.kind == b.kind && kinds_of(o) == kinds_of(&b)) {
                    out.push(b);
                }
            }
        }
        out
    })
}

fn material<T: Tree, F: WireFormat>(sc: &Scene<T, F>) -> Mat {
    let srcs = sources(sc);
    let mut hashes: Vec<(Vid, Value)> = Vec::new();
    for s in srcs.iter().filter(|s| s.kind == NB && s.pos.echo) {
        for e in pack_of(&s.v).into_iter().flatten() {
            let Some(id) = e.get(0).and_then(|x| x.as_u64()) else { continue };
            let Some(h) = e.get(1) else { continue };
            if !hashes.iter().any(|x| x.1 == *h) {
                hashes.push((Vid(id as u16), h.clone()));
            }
        }
    }
    let mut bases: Vec<Base> = Vec::new();
    for ev in evidence_of(sc) {
        let b = base_of(ev, &srcs);
        if bases.len() < 8 && !bases.iter().any(|o| o.v == b.v) {
            bases.push(b);
        }
    }
    for b in &bases {
        for s in &b.slots {
            if let Slot::Hash { path } = s {
                hashes.push((b.guilty, at(&b.v, path).unwrap().clone()));
            }
        }
    }
    let genuine = bases.len();
    bases.extend(templates().iter().cloned());
    let plan = &sc.net.plan;
    let mut nums = Vec::new();
    for c in &sc.cfgs {
        for (s, st) in c.stages.iter().enumerate() {
            nums.push(c.num(s, 0));
            if st.sib {
                nums.push(c.num(s, 1));
            }
        }
    }
    // hashes of other parts of the messages, presented as those of echo broadcasts
    let mut extra: Vec<(Vid, Value)> = Vec::new();
    for (z, h) in &hashes {
        let Some(eb) = srcs.iter().find(|s| s.kind == EB && s.by == *z && sig_of(&s.v).is_some_and(|sig| contains(h, &sig))) else { continue };
        for o in srcs.iter().filter(|s| s.kind != EB && s.by == *z && s.pos == eb.pos && s.sess == eb.sess) {
            let (was, is) = (payload_of(&eb.v), payload_of(&o.v));
            let (Some(a), Some(b)) = (sig_of(&eb.v), sig_of(&o.v)) else { continue };
            if let Some(n) = sc.rewrite(h, &a, was.as_deref(), &b, part_hash(o.kind, is.as_deref())) {
                extra.push((*z, n));
                break;
            }
        }
    }
    hashes.extend(extra);
    Mat {
        hashes,
        bases,
        genuine,
        nums,
        ids: (0..plan.n()).map(|i| plan.vid(i)).collect(),
        clean: (0..plan.n()).filter(|i| sc.net.mal & (1 << i) == 0).map(|i| plan.vid(i)).collect(),
        srcs,
    }
}

fn contains(v: &Value, x: &Value) -> bool {
    v == x
        || match v {
            Value::Array(a) => a.iter().any(|y| contains(y, x)),
            Value::Object(o) => o.values().any(|y| contains(y, x)),
            _ => false,
        }
}

fn slot_path(s: &Slot) -> &Path {
    match s {
        Slot::Part { path, .. } | Slot::Unknown { path } | Slot::Hash { path } => path,
    }
}

/// Sets the identifier at the top level; with `all`, also everywhere outside of the signed pieces.
fn reattribute(v: &mut Value, from: Vid, to: Vid, slots: &[Slot], all: bool) {
    for p in paths(v, true) {
        if slots.iter().any(|s| p.starts_with(slot_path(s))) || (p.len() > 1 && !all) {
            continue;
        }
        if let Some(x) = at_mut(v, &p) {
            if *x == json!(from.0) {
                *x = json!(to.0);
            }
        }
    }
}

/// The leaf that holds the contents of the protocol error, with its encoding.
fn error_leaf<F: WireFormat>(v: &Value, slots: &[Slot]) -> Option<(Path, bool)> {
    for p in paths(v, true) {
        if slots.iter().any(|s| p.starts_with(slot_path(s))) {
            continue;
        }
        let Some(Value::String(s)) = at(v, &p) else { continue };
        for hex in [false, true] {
            let b = if hex { unhex(s) } else { unbase64(s) };
            if b.is_some_and(|b| is_error::<F>(&b) || is_error::<Json>(&b)) {
                return Some((p, hex));
            }
        }
    }
    None
}
fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(x >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
enum Aim {
    /// Frame somebody
    Frame,
    /// Confuse the verifier
    Confuse,
}

/// The indices in a path: none for the messages of the failing round, one pair for those kept per round,
/// two pairs for those kept per round and party.
fn depth(p: &Path) -> usize {
    p.iter().filter(|k| matches!(k, Key::I(_))).count()
}

/// Evidence of a protocol error put together from messages which belong together, but for one thing.
fn stitch<F: WireFormat>(g: &mut Gen, m: &Mat, cfgs: &[Arc<Cfg>], sids: &[SessionId]) -> Option<(Value, String)> {
    let sort = 1 + g.below(2) as u8;
    let fit: Vec<&Base> = m
        .bases
        .iter()
        .filter(|b| b.sort == Some(sort) && b.slots.iter().any(|s| depth(slot_path(s)) == 0))
        .filter(|b| b.slots.iter().all(|s| matches!(s, Slot::Part { .. })))
        .collect();
    if fit.is_empty() {
        return None;
    }
    let base = *g.pick(&fit);
    let mut v = base.v.clone();
    let dirty: Vec<Vid> = m.ids.iter().copied().filter(|i| !m.clean.contains(i)).collect();
    let clean: Vec<Vid> = m.clean.iter().copied().collect();
    let z = *g.pick(&clean);
    for p in paths(&v, true) {
        if p.len() == 1 && at(&v, &p) == Some(&json!(base.guilty.0)) {
            *at_mut(&mut v, &p)? = json!(z.0);
        }
    }
    let slots: Vec<(&Path, u8, bool)> = base
        .slots
        .iter()
        .filter_map(|s| match s {
            Slot::Part { path, kind, pos, .. } => Some((path, *kind, pos.echo)),
            _ => None,
        })
        .collect();
    let num = |p: &Pos| cfgs.get(p.p as usize).map(|c| c.num(p.stage as usize, p.alt));
    // the failing round
    let kinds: Vec<u8> = slots.iter().filter(|s| depth(s.0) == 0).map(|s| s.1).collect();
    let last: Vec<&Src> = m.srcs.iter().filter(|s| s.by == z && !s.pos.echo && s.pos.stage > 0 && s.kind == kinds[0]).collect();
    if last.is_empty() {
        return None;
    }
    let this = *g.pick(&last);
    let mut set = |path: &Path, s: &Value, rid: Option<&Value>| -> Option<()> {
        *at_mut(&mut v, path)? = s.clone();
        if let Some(rid) = rid {
            let mut k = path.clone();
            k.pop();
            k.push(Key::I(0));
            *at_mut(&mut v, &k)? = main_rid(rid).unwrap_or_else(|| rid.clone());
        }
        Some(())
    };
    let mut this_mask = 0;
    for (path, kind, _) in slots.iter().filter(|s| depth(s.0) == 0) {
        let s = m.srcs.iter().find(|s| s.by == z && s.pos == this.pos && s.sess == this.sess && s.kind == *kind && (*kind != this.kind || s.v == this.v))?;
        this_mask |= 1 << kind;
        set(path, &s.v, None)?;
    }
    // what does not fit: the session of everything else, or some message of another party
    let crossed = g.chance(1, 2);
    let sess = if crossed { 1 - this.sess } else { this.sess };
    let what;
    let error;
    if sort == 1 {
        let mut prev: Vec<(u8, u8)> = Vec::new();
        let mut link = None;
        for (path, kind, echo) in slots.iter().filter(|s| depth(s.0) > 0) {
            if *echo || depth(path) != 2 {
                return None;
            }
            let fits: Vec<&Src> = m
                .srcs
                .iter()
                .filter(|s| s.by == z && s.kind == *kind && !s.pos.echo && s.pos.p == this.pos.p && s.pos.stage < this.pos.stage && s.sess == sess)
                .collect();
            if fits.is_empty() {
                return None;
            }
            let s = *g.pick(&fits);
            let n = num(&s.pos)?;
            set(path, &s.v, Some(&s.rid))?;
            link = Some((n, *kind));
            match prev.iter_mut().find(|p| p.0 == n) {
                Some(p) => p.1 |= 1 << kind,
                None => prev.push((n, 1 << kind)),
            }
        }
        error = exact_error::<F>(num(&this.pos)?, kinds[0], Ok(link?), this_mask, prev);
        what = format!("link, crossed {crossed}");
    } else {
        let (mine, packs): (Vec<_>, Vec<_>) = slots.iter().filter(|s| depth(s.0) == 2).partition(|s| !s.2);
        let [(pack_path, NB, _)] = packs[..] else { return None };
        let list = slots.iter().find(|s| depth(s.0) == 4).map(|s| s.0[..s.0.len() - 2].to_vec())?;
        let found: Vec<&Src> = m
            .srcs
            .iter()
            .filter(|s| s.by == z && s.kind == NB && s.pos.echo && s.pos.p == this.pos.p && s.pos.stage < this.pos.stage && s.sess == sess)
            .collect();
        if found.is_empty() {
            return None;
        }
        let pack = *g.pick(&found);
        let at_stage = |s: &&Src| s.kind == EB && !s.pos.echo && s.pos.p == pack.pos.p && s.pos.stage == pack.pos.stage;
        let entries = pack_of(&pack.v)?;
        let odd = (!entries.is_empty() && (!crossed || g.chance(1, 4))).then(|| g.below(entries.len()));
        let mut out = Vec::new();
        let mut how = "";
        for (i, e) in entries.iter().enumerate() {
            let id = Vid(e.get(0)?.as_u64()? as u16);
            let all: Vec<&Src> = m.srcs.iter().filter(at_stage).filter(|s| s.by == id).collect();
            let right = all.iter().find(|s| sig_of(&s.v).is_some_and(|sig| contains(&e[1], &sig)))?;
            let mut b = right.v.clone();
            if odd == Some(i) {
                let others: Vec<&Src> = match g.below(3) {
                    // another round's, or another session's
                    0 => m.srcs.iter().filter(|s| s.by == id && s.kind == EB && s.v != b).collect(),
                    // somebody else's
                    1 => m.srcs.iter().filter(at_stage).filter(|s| s.by != id).collect(),
                    _ => Vec::new(),
                };
                if !others.is_empty() {
                    b = g.pick(&others).v.clone();
                    how = "another broadcast";
                } else if dirty.contains(&id) {
                    let mut part: Part = de::<F, _>(&payload_of(&b)?).ok()?;
                    part.data ^= 1 << g.below(64);
                    let rid: RoundId = serde_json::from_value(right.rid.clone()).ok()?;
                    let msg = to_v(&forge::<F>(id, &sids[right.sess as usize], &rid, Vid(1), [None, Some(ser::<F, _>(&part)), None], g.u64()));
                    b = super::wire::part(&msg, EB as usize)?.clone();
                    how = "a broadcast made to fit";
                }
            }
            out.push(json!([e[0], b]));
        }
        set(pack_path, &pack.v, Some(&pack.rid))?;
        let mut prev = Vec::new();
        for (path, kind, _) in &mine {
            let s = m.srcs.iter().find(|s| at_stage(s) && s.by == z && s.sess == pack.sess)?;
            if *kind != EB {
                return None;
            }
            set(path, &s.v, Some(&s.rid))?;
            prev.push((num(&s.pos)?, 1 << EB));
        }
        *at_mut(&mut v, &list)? = Value::Array(out);
        let mut k = list.clone();
        k.pop();
        k.push(Key::I(0));
        *at_mut(&mut v, &k)? = main_rid(&pack.rid)?;
        error = exact_error::<F>(num(&this.pos)?, kinds[0], Err(pack.pos.stage), this_mask, prev);
        what = format!("fold, crossed {crossed}, {how}");
    }
    let (p, hex_) = error_leaf::<F>(&base.v, &base.slots)?;
    *at_mut(&mut v, &p)? = Value::String(if hex_ { hex(&error) } else { base64(&error) });
    Some((v, format!("stitched ({what}) against {z:?}")))
}

/// Makes up a piece of evidence.
fn concoct<F: WireFormat>(g: &mut Gen, m: &Mat, sids: &[SessionId], rids: &[RoundId], aim: Aim) -> Option<(Value, String)> {
    let base = if m.genuine > 0 && g.chance(1, 2) { &m.bases[g.below(m.genuine)] } else { g.pick(&m.bases) };
    let mut v = base.v.clone();
    let clean: Vec<Vid> = m.clean.iter().copied().collect();
    let dirty: Vec<Vid> = m.ids.iter().copied().filter(|i| !m.clean.contains(i)).collect();
    let z = match (aim, g.below(8)) {
        (_, 7) => Vid([0, 9999, 65535][g.below(3)]),
        (Aim::Frame, _) => *g.pick(&clean),
        (Aim::Confuse, 0..=4) if !dirty.is_empty() => *g.pick(&dirty),
        _ => *g.pick(&m.ids),
    };
    reattribute(&mut v, base.guilty, z, &base.slots, g.chance(2, 3));
    let mode = g.below(if aim == Aim::Confuse { 8 } else { 6 });
    let mut what = format!("{} against {z:?}, mode {mode}", base.kind);
    // where everything is supposed to come from
    let mine: Vec<&Src> = m.srcs.iter().filter(|s| s.by == z).collect();
    let anchor = (!mine.is_empty()).then(|| *g.pick(&mine));
    let anchor_at = base.slots.iter().find_map(|s| match s {
        Slot::Part { pos, .. } => Some(*pos),
        _ => None,
    });
    for slot in &base.slots {
        let (new, rid): (Value, Option<Value>) = match slot {
            Slot::Hash { .. } => {
                let of_z: Vec<&Value> = m.hashes.iter().filter(|h| h.0 == z || mode == 4).map(|h| &h.1).collect();
                if of_z.is_empty() || mode == 0 {
                    continue;
                }
                ((*g.pick(&of_z)).clone(), None)
            }
            _ if mode == 0 => continue,
            Slot::Unknown { path } | Slot::Part { path, .. } => {
                let (kind, pos, sess, by) = match slot {
                    Slot::Part { kind, pos, sess, by, .. } => (*kind, Some(*pos), *sess, *by),
                    _ => (g.below(3) as u8, None, 0, base.guilty),
                };
                if mode >= 6 {
                    // the party signs whatever it likes
                    let rid = if g.chance(1, 4) || rids.is_empty() { odd_rid(g, rids) } else { g.pick(rids).clone() };
                    let sid = g.pick(sids);
                    let contents = match g.below(6) {
                        0 => None,
                        1 => Some(g.bytes(6)),
                        2 => Some(gen_error::<F>(g, &m.nums)),
                        _ => {
                            let s = g.pick(&m.srcs);
                            let mut b = payload_of(&s.v);
                            if let Some(b) = &mut b {
                                if !b.is_empty() && g.chance(1, 3) {
                                    let i = g.below(b.len());
                                    b[i] ^= 1 << g.below(8);
                                }
                            }
                            b
                        }
                    };
                    let mut parts = [None, None, None];
                    parts[kind as usize] = contents;
                    let seed = g.u64();
                    let msg = to_v(&forge::<F>(z, sid, &rid, Vid(1), parts, seed));
                    (part(&msg, kind as usize)?.clone(), Some(to_v(&rid)))
                } else {
                    let same = |s: &&Src| s.kind == kind;
                    let want = match mode {
                        // the same round
                        1 => pos,
                        // shifted to the anchor's round
                        2 | 3 => match (pos, anchor_at, anchor) {
                            (Some(p), Some(a), Some(s)) if p.echo == a.echo => {
                                let stage = (s.pos.stage + p.stage).saturating_sub(a.stage);
                                Some(Pos { stage, p: s.pos.p, ..p })
                            }
                            (Some(p), Some(a), Some(s)) => {
                                let stage = (s.pos.stage + p.stage).saturating_sub(a.stage);
                                Some(Pos { stage, p: s.pos.p, echo: p.echo, ..s.pos })
                            }
                            _ => pos,
                        },
                        _ => None,
                    };
                    let sess = if mode == 3 { 1 } else { sess };
                    // somebody else's message is kept or replaced by another one of that round
                    let who = if by == base.guilty || slot_is_unknown(slot) { z } else { by };
                    let fits: Vec<&Src> = match mode {
                        1 | 2 | 3 => m
                            .srcs
                            .iter()
                            .filter(|s| s.by == who && s.sess == sess && want.map(|w| w == s.pos).unwrap_or(true))
                            .filter(same)
                            .collect(),
                        4 => m.srcs.iter().filter(same).collect(),
                        _ => m.srcs.iter().filter(|s| s.by == z).collect(),
                    };
                    if fits.is_empty() {
                        continue;
                    }
                    let s = *g.pick(&fits);
                    let _ = path;
                    (s.v.clone(), Some(s.rid.clone()))
                }
            }
        };
        let path = slot_path(slot);
        *at_mut(&mut v, path)? = new;
        if let (Some(rid), Some(Key::I(1)), true) = (rid, path.last(), g.below(4) != 0) {
            let mut k = path.clone();
            k.pop();
            k.push(Key::I(0));
            if let Some(x) = at_mut(&mut v, &k) {
                // main rounds are the keys of everything, also of the packs of echo rounds
                if x.is_object() || x.is_string() {
                    *x = main_rid(&rid).unwrap_or(rid);
                }
            }
        }
    }
    // what the error claims
    if g.chance(1, 2) {
        if let Some((p, hex_)) = error_leaf::<F>(&base.v, &base.slots) {
            let b = match g.below(if aim == Aim::Confuse { 5 } else { 3 }) {
                0 | 1 | 2 => gen_error::<F>(g, &m.nums),
                3 => ser::<F, _>(&()),
                _ => {
                    let odd: [&[u8]; 8] = [b"", b"null", b"[]", b"{}", b"0", &[0], &[0, 0], b"\"\""];
                    g.pick(&odd).to_vec()
                }
            };
            *at_mut(&mut v, &p)? = Value::String(if hex_ { hex(&b) } else { base64(&b) });
            what.push_str(", other error");
        }
    }
    // who else is mentioned
    let outside = |v: &Value| -> Vec<Path> {
        paths(v, true).into_iter().filter(|p| p.len() > 1 && !base.slots.iter().any(|s| p.starts_with(slot_path(s)))).collect()
    };
    if g.chance(1, 3) {
        for p in outside(&v) {
            if at(&v, &p).and_then(|x| x.as_u64()).is_some_and(|x| (20_000..30_000).contains(&x) || m.ids.iter().any(|i| i.0 as u64 == x)) && g.chance(1, 2) {
                *at_mut(&mut v, &p)? = json!(g.pick(&m.ids).0);
            }
        }
    }
    if g.chance(1, if aim == Aim::Confuse { 3 } else { 8 }) {
        for _ in 0..g.range(1, 3) {
            let all = paths(&v, false);
            let p = g.pick(&all).clone();
            let x = at_mut(&mut v, &p)?;
            match x {
                Value::Array(a) if !a.is_empty() => {
                    let i = g.below(a.len());
                    match g.below(3) {
                        0 => drop(a.remove(i)),
                        1 => a.push(a[i].clone()),
                        _ => a.clear(),
                    }
                }
                Value::Object(o) if !o.is_empty() => {
                    // an optional part
                    let ks: Vec<String> = o.keys().cloned().collect();
                    let k = g.pick(&ks);
                    o.insert(k.clone(), Value::Null);
                }
                _ => drop(mutate(g, x, false)),
            }
        }
        what.push_str(", garbled");
    }
    Some((v, what))
}

fn slot_is_unknown(s: &Slot) -> bool {
    matches!(s, Slot::Unknown { .. })
}

/// The identifier of the main round in serialized form.
fn main_rid(rid: &Value) -> Option<Value> {
    let r: RoundId = serde_json::from_value(rid.clone()).ok()?;
    // the flag of an echo round is the only boolean
    let mut v = to_v(&r);
    let o = v.as_object_mut()?;
    let mut n = 0;
    for x in o.values_mut() {
        if let Value::Bool(b) = x {
            *b = false;
            n += 1;
        }
    }
    (n == 1).then_some(v)
}

fn odd_rid(g: &mut Gen, rids: &[RoundId]) -> RoundId {
    for _ in 0..4 {
        let mut v = if rids.is_empty() { to_v(&RoundId::new(1)) } else { to_v(g.pick(rids)) };
        let all = paths(&v, false);
        let p = g.pick(&all).clone();
        let Some(x) = at_mut(&mut v, &p) else { continue };
        match x {
            Value::Array(a) => {
                if g.chance(1, 2) || a.is_empty() {
                    a.push(json!(g.below(4)))
                } else {
                    a.clear()
                }
            }
            Value::Number(_) => *x = json!(g.below(256)),
            Value::Bool(b) => *b = !*b,
            _ => continue,
        }
        if let Ok(r) = serde_json::from_value(v) {
            return r;
        }
    }
    RoundId::new(g.below(256) as u8)
}

/// The verdict on a piece of evidence; failing on anything C11 forbids.
fn verdict<P, F>(ev: &Evidence<P, SP<F>>, shared: &P::SharedData, what: &dyn Fn() -> String) -> Result<Result<(), String>, Fail>
where
    P: Protocol<Vid>,
    F: WireFormat,
{
    match guarded(|| ev.verify(shared)) {
        Err(panic) => fail!("C11:panic", "verification panics: {panic}; {}", what()),
        Ok(Ok(())) => Ok(Ok(())),
        Ok(Err(EvidenceError::InvalidEvidence(s))) => Ok(Err(s)),
        Ok(Err(e)) => fail!("C11:local", "verification ends with {e:?}; {}", what()),
    }
}

fn run_evidence<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>, k: ByzKnobs, aim: Aim, tries: usize) -> CaseRes {
    templates();
    let sc = scene::<T, F>(g, ctx, cfgs, k)?;
    let m = material(&sc);
    if m.bases.is_empty() || m.srcs.is_empty() {
        ctx.label("no material");
        return Ok(());
    }
    let shared = T::shared(&sc.cfgs);
    let rids: Vec<RoundId> = sc.net.rids.values().cloned().collect();
    let sids = vec![sc.net.sid.clone(), sc.other_sid.clone()];
    let kinds = ctx.kinds;
    let counts = |f: &Fail| kinds.iter().any(|k| f.kind.starts_with(k));
    let (mut parsed, mut reached) = (0, 0);
    // what is genuine stops being convincing when it is changed
    if aim == Aim::Frame {
        for b in &m.bases[..m.genuine] {
            disturb::<T, F>(g, ctx, &sc, &m, b, &shared)?;
        }
    }
    for _ in 0..tries {
        let made = if aim == Aim::Frame && g.chance(2, 5) { stitch::<F>(g, &m, &sc.cfgs, &sids) } else { concoct::<F>(g, &m, &sids, &rids, aim) };
        let Some((v, what)) = made else { continue };
        let Ok(ev) = serde_json::from_value::<Evidence<T::Protocol, SP<F>>>(v.clone()) else {
            ctx.label("does not parse");
            continue;
        };
        parsed += 1;
        let tale = || format!("{what}; {v}; {}", sc.tale());
        let res = match verdict::<_, F>(&ev, &shared, &tale) {
            Ok(r) => r,
            Err(f) if counts(&f) => return Err(f),
            Err(_) => continue,
        };
        let clean = m.clean.contains(ev.guilty_party());
        let short = what.split(" against").next().unwrap_or("");
        match res {
            Ok(()) => {
                ctx.label(format!("convincing: {short}"));
                ensure!(!clean || aim == Aim::Confuse, "C10:framed", "evidence against the honest {:?} verifies: {}", ev.guilty_party(), tale());
            }
            Err(e) => {
                // the reasons tell how far the verification went
                if !e.contains("signature") {
                    reached += 1;
                    ctx.label(format!("refuted past the signatures: {short}"));
                } else {
                    ctx.label(format!("bad signature: {short}"));
                }
            }
        }
        if g.chance(1, 8) {
            // as it would come from the wire
            let bytes = ser::<F, _>(&ev);
            match guarded(|| de::<F, Evidence<T::Protocol, SP<F>>>(&bytes)) {
                Err(panic) => fail!("C11:panic", "deserialization panics: {panic}; {}", tale()),
                Ok(Err(e)) => ctx.label(format!("not transportable: {e}").chars().take(40).collect::<String>()),
                Ok(Ok(ev)) => {
                    if let Err(f) = verdict::<_, F>(&ev, &shared, &tale) {
                        if counts(&f) {
                            return Err(f);
                        }
                    }
                }
            }
        }
    }
    ctx.add("made up", parsed as u64);
    if parsed > 0 && reached > 0 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{}, malicious {:b}, did: {:?}, {} genuine, {parsed} made up, {reached} past the signatures", sc.net.plan.describe(), sc.net.mal, sc.did, m.genuine));
    Ok(())
}

/// Genuine evidence with another culprit, or with one of the messages it relies on changed.
fn disturb<T: Tree, F: WireFormat>(
    g: &mut Gen,
    ctx: &mut Ctx,
    sc: &Scene<T, F>,
    m: &Mat,
    b: &Base,
    shared: &<T::Protocol as Protocol<Vid>>::SharedData,
) -> CaseRes {
    let judge = |v: &Value| -> Option<(Evidence<T::Protocol, SP<F>>, bool)> {
        let ev = serde_json::from_value::<Evidence<T::Protocol, SP<F>>>(v.clone()).ok()?;
        if to_v(&ev) == b.v {
            return None;
        }
        let ok = guarded(|| ev.verify(shared).is_ok()).ok()?;
        Some((ev, ok))
    };
    for _ in 0..2 {
        let mut others: Vec<Vid> = m.ids.iter().copied().filter(|i| *i != b.guilty).collect();
        others.push(Vid(9999));
        let z = *g.pick(&others);
        let mut v = b.v.clone();
        let all = g.chance(1, 2);
        reattribute(&mut v, b.guilty, z, &b.slots, all);
        if let Some((ev, ok)) = judge(&v) {
            if *ev.guilty_party() == z {
                ctx.label("re-attributed");
                ensure!(!ok, "C10:re-attributed", "evidence against {:?} ({}) verifies against {z:?}, too: {v}; {}", b.guilty, b.kind, sc.tale());
            }
        }
    }
    let sig = keys().map(|k| k.sig.clone()).unwrap_or_default();
    for _ in 0..4 {
        if b.slots.is_empty() {
            break;
        }
        let slot = g.pick(&b.slots);
        if let Slot::Part { by, .. } = slot {
            // evidence may carry broadcasts of others that it does not need
            if *by != b.guilty {
                continue;
            }
        }
        if slot_is_unknown(slot) {
            continue;
        }
        let root = slot_path(slot).clone();
        let mut v = b.v.clone();
        let leaves = paths(at(&v, &root).unwrap(), true);
        let sub = g.pick(&leaves).clone();
        // (the encodings of signatures may tolerate trailing bytes)
        let in_place = sig.iter().any(|s| s.first() == sub.first());
        let full: Path = root.iter().cloned().chain(sub.iter().cloned()).collect();
        if !mutate(g, at_mut(&mut v, &full).unwrap(), in_place) {
            continue;
        }
        if let Some((_, ok)) = judge(&v) {
            ctx.label("altered");
            ensure!(!ok, "C10:altered", "evidence against {:?} ({}) verifies with {full:?} changed: {v}; original {}; {}", b.guilty, b.kind, b.v, sc.tale());
        }
    }
    Ok(())
}

fn run_tree(g: &mut Gen, ctx: &mut Ctx, k: ByzKnobs, trees: &[usize], aim: Aim, tries: usize) -> CaseRes {
    let tree = *g.pick(trees);
    let fmt = [1, 2, 0, 3, 1][g.below(5)];
    {
        let cfgs = if tree == 0 { vec![Arc::new(gen_cfg(g, k.knobs))] } else { gen_cfgs(g, leaves(tree), k.knobs) };
        with_both!(tree, fmt, T, F => run_evidence::<T, F>(g, ctx, cfgs, k, aim, tries))
    }
}

/// Arbitrary bytes given to the deserializers; what comes out is verified.
fn run_bytes(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let fmt = g.below(4);
    let tree = g.below(2);
    {
        let k = Knobs { nmin: 2, nmax: 3, stages: 2, ..BYZ.knobs };
        let cfgs = if tree == 0 { vec![Arc::new(gen_cfg(g, k))] } else { gen_cfgs(g, leaves(tree), k) };
        with_both!(tree, fmt, T, F => bytes_case::<T, F>(g, ctx, cfgs))
    }
}

fn bytes_case<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>) -> CaseRes {
    templates();
    set_entry_nums(&cfgs);
    let shared = T::shared(&cfgs);
    let sid = SessionId::from_seed::<SP<F>>(b"bytes");
    let mut again = 0;
    for _ in 0..12 {
        let mut bytes: Vec<u8> = match g.below(4) {
            0 => g.bytes(40),
            1 | 2 => {
                let t = g.pick(templates());
                match serde_json::from_value::<Evidence<T::Protocol, SP<F>>>(t.v.clone()) {
                    Ok(ev) => ser::<F, _>(&ev),
                    Err(_) => continue,
                }
            }
            _ => {
                let seed = g.u64();
                let parts = [Some(vec![1, 2, 3]), None, Some(b"abc".to_vec())];
                ser::<F, _>(&forge::<F>(Vid(1), &sid, &RoundId::new(1), Vid(2), parts, seed))
            }
        };
        for _ in 0..g.below(4) {
            if bytes.is_empty() {
                break;
            }
            let i = g.below(bytes.len());
            match g.below(7) {
                0 => bytes.truncate(i),
                1 => bytes[i] = 0xff,
                2 => bytes[i] = g.below(256) as u8,
                3 => bytes[i] ^= 1 << g.below(8),
                4 => bytes.insert(i, g.below(256) as u8),
                5 => drop(bytes.remove(i)),
                _ => {
                    let j = g.below(bytes.len());
                    let (a, b) = (i.min(j), i.max(j));
                    let chunk: Vec<u8> = bytes[a..b].to_vec();
                    bytes.splice(b..b, chunk);
                }
            }
        }
        let tale = || format!("input {}", hex(&bytes));
        match guarded(|| de::<F, Evidence<T::Protocol, SP<F>>>(&bytes)) {
            Err(p) => fail!("C11:panic", "deserializing evidence panics: {p}; {}", tale()),
            Ok(Err(_)) => ctx.label("not evidence"),
            Ok(Ok(ev)) => {
                ctx.label("evidence");
                again += 1;
                let _ = verdict::<_, F>(&ev, &shared, &tale)?;
            }
        }
        match guarded(|| de::<F, Message<Vid>>(&bytes).map(|m| *m.destination())) {
            Err(p) => fail!("C11:panic", "deserializing a message panics: {p}; {}", tale()),
            Ok(r) => {
                if r.is_ok() {
                    again += 1;
                    ctx.label("message");
                } else {
                    ctx.label("not a message");
                }
            }
        }
        for r in [
            guarded(|| de::<F, RoundId>(&bytes).is_ok()),
            guarded(|| de::<F, SessionId>(&bytes).is_ok()),
        ] {
            if let Err(p) = r {
                fail!("C11:panic", "deserializing an identifier panics: {p}; {}", tale());
            }
        }
    }
    if again > 0 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{again} of 12 inputs were accepted"));
    Ok(())
}

const RULE10: &str = "a case is a network of lying and honest parties (as in C07 and C09), optionally another session of the \
    same parties, and pieces of evidence put together from what everybody signed: genuine evidence and templates of all \
    kinds with other culprits, parts from other rounds, sessions, slots, and authors, other error contents, garbled \
    fields; non-trivial if a made-up piece passed the signature checks before being refuted";
const RULE11: &str = "as for C10, with parts the accused party signed on purpose (any contents, rounds, sessions), odd round \
    identifiers and error contents, garbled structure; in the bytes facet arbitrary and mutated bytes for the \
    deserializers, non-trivial if some of them were accepted";

pub fn checks() -> Vec<Check> {
    fn wide() -> ByzKnobs {
        ByzKnobs { knobs: Knobs { nmin: 2, nmax: 4, stages: 3, full: 7, siblings: true, ..BYZ.knobs }, twist: 5, ..BYZ }
    }
    fn echo() -> ByzKnobs {
        let knobs = Knobs { nmin: 3, nmax: 5, stages: 3, full: 7, echo: 8, ..BYZ.knobs };
        ByzKnobs { knobs, main: 2, echo: 3, ..BYZ }
    }
    vec![
        Check {
            id: "C10",
            rule: RULE10,
            assumptions: &["an honest party signs at most one message per round and destination (it does not run the same session twice)", "the verifier uses the same protocol and shared data as the session"],
            kinds: &["C10"],
            facets: vec![
                facet("frames", 6000, |g, c| run_tree(g, c, wide(), &[0], Aim::Frame, 12)),
                facet("echo-frames", 5000, |g, c| run_tree(g, c, echo(), &[0, 0, 1], Aim::Frame, 12)),
                facet("chained-frames", 3000, |g, c| run_tree(g, c, wide(), &[1, 2, 3, 4], Aim::Frame, 12)),
            ],
        },
        Check {
            id: "C11",
            rule: RULE11,
            assumptions: &["the protocol's own verification code is total"],
            kinds: &["C11"],
            facets: vec![
                facet("confusions", 6000, |g, c| run_tree(g, c, wide(), &[0], Aim::Confuse, 12)),
                facet("echo-confusions", 4000, |g, c| run_tree(g, c, echo(), &[0, 0, 1], Aim::Confuse, 12)),
                facet("chained-confusions", 4000, |g, c| run_tree(g, c, wide(), &[1, 2, 3, 4], Aim::Confuse, 12)),
                facet("bytes", 12000, run_bytes),
            ],
        },
    ]
}
