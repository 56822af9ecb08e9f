//! Honest sessions under attack: C02-C06, C08.
use std::{collections::BTreeMap, sync::Arc};

use manul::{
    protocol::{Protocol, RoundId},
    session::{CanFinalize, Message, SessionId, WireFormat},
};
use serde_json::Value;

use crate::{
    chain::*,
    ensure, fail,
    net::*,
    params::{ser, Vid, SP},
    proto::*,
    runner::{Check, Ctx, Fail, facet},
    util::{bits, Gen},
    wire::*,
    with_format, with_both,
};

/// What is in a message slot.
#[derive(Clone, Debug)]
pub enum Cls {
    None,
    Garbage,
    Part(Part),
    Pack(Pos, Vid),
}

/// A message part with all we know about it.
#[derive(Clone, Debug)]
pub struct PartInfo {
    pub json: Value,
    pub signer: Option<Vid>,
    pub kind: u8,
    pub this_session: bool,
    pub sid: u8,
    pub rid: RoundId,
    pub cls: Cls,
}
#[derive(Clone, Debug)]
pub struct Known {
    pub parts: [PartInfo; 3],
    pub json: Value,
    pub what: String,
}

pub struct Arena<P: Protocol<Vid, Result = Res>, F: WireFormat> {
    pub net: Net<P, F>,
    pub other_sid: SessionId,
    /// Messages of another session of the same parties
    pub foreign: Vec<Known>,
    /// Messages delivered by the adversary so far, per recipient
    pub sent: Vec<(usize, Vid, Message<Vid>, Desc)>,
    pub outsider: Vid,
    pub seed: u64,
    pub injected: BTreeMap<&'static str, u64>,
    pub spoof: bool,
}

/// The identifiers of all rounds of the plan: the ordinary ones by their numbers, the echo rounds as observed.
pub fn registry(plan: &Plan, seen: &BTreeMap<Pos, RoundId>) -> BTreeMap<Pos, RoundId> {
    let mut rids = seen.clone();
    if plan.cfgs.len() == 1 {
        let cfg = &plan.cfgs[0];
        for (s, st) in cfg.stages.iter().enumerate() {
            for alt in 0..=(st.sib as u8) {
                rids.insert(Pos { p: 0, stage: s as u8, alt, echo: false }, RoundId::new(cfg.num(s, alt)));
            }
        }
    }
    rids
}

fn cls_of(plan: &Plan, book: &Book, pos: Pos, by: usize, to: usize, kind: u8) -> Cls {
    let vid = plan.vid(by);
    if pos.echo {
        return if kind == NB { Cls::Pack(pos, vid) } else { Cls::None };
    }
    if !shape_has(plan.shape(pos), kind) {
        return Cls::None;
    }
    let dest = if kind == DM { plan.vid(to).0 } else { 0 };
    match book.made.get(&(pos.p, vid.0, pos.stage, pos.alt, kind, dest)).and_then(|v| v.first()) {
        Some(p) => Cls::Part(p.clone()),
        None => Cls::None,
    }
}

pub fn known(plan: &Plan, book: &Book, rid: &RoundId, pos: Pos, by: usize, to: usize, m: &Message<Vid>, sid: u8) -> Option<Known> {
    let json = to_v(m);
    let mk = |kind: u8| {
        Some(PartInfo {
            json: part(&json, kind as usize)?.clone(),
            signer: Some(plan.vid(by)),
            kind,
            this_session: sid == 0,
            sid,
            rid: rid.clone(),
            cls: cls_of(plan, book, pos, by, to, kind),
        })
    };
    let parts = [mk(DM)?, mk(EB)?, mk(NB)?];
    Some(Known { parts, json, what: format!("{pos:?} message of {:?} for {:?} (session {sid})", plan.vid(by), plan.vid(to)) })
}

/// What the round at `pos` makes of such contents.
pub fn expect(plan: &Plan, sr: &[u8], pos: Pos, x: Vid, from: Vid, cls: &[Cls; 3]) -> Option<Expect> {
    let prov = Some(Expect::Prov(from));
    if pos.echo {
        if !matches!(cls[0], Cls::None) || !matches!(cls[1], Cls::None) {
            return prov;
        }
        return match &cls[2] {
            Cls::Pack(p, by) if *p == pos && *by == from => Some(Expect::Accept),
            Cls::None | Cls::Garbage => prov,
            _ => None,
        };
    }
    let shape = plan.shape(pos);
    for k in KINDS {
        let bad = match &cls[k as usize] {
            Cls::None => shape_has(shape, k),
            Cls::Garbage => true,
            Cls::Part(_) => !shape_has(shape, k),
            Cls::Pack(..) => {
                if shape_has(shape, k) {
                    return None;
                }
                true
            }
        };
        if bad {
            return prov;
        }
    }
    for k in [EB, NB, DM] {
        let Cls::Part(part) = &cls[k as usize] else { continue };
        if part.flags & 1 != 0 || (k == DM && part.to != x.0) {
            return Some(Expect::Unprov);
        }
        let genuine = part.kind == k
            && part.from == from.0
            && part.stage == pos.stage
            && part.alt == pos.alt
            && part.p == pos.p
            && part.tag == tagf(plan.cfg(pos), sr, from.0, pos.stage as usize, pos.alt, k, part.to);
        if !genuine {
            return if shape == 8 { Some(Expect::Unprov) } else { prov };
        }
    }
    Some(Expect::Accept)
}

/// Bytes that no type of the harness can be decoded from.
pub fn garbage(g: &mut Gen) -> Vec<u8> {
    match g.below(3) {
        0 => vec![],
        1 => vec![0xff; 3],
        _ => vec![0xff; 12],
    }
}

impl<P: Protocol<Vid, Result = Res>, F: WireFormat> Arena<P, F> {
    pub fn honest_targets(&self) -> Vec<usize> {
        (0..self.net.plan.n()).filter(|i| self.net.mal & (1 << i) == 0 && self.net.active(*i)).collect()
    }

    fn pool_known(&self, k: usize) -> Option<Known> {
        let book = Book::new(&self.net.log.get());
        let (pos, by, to, m) = &self.net.pool.as_ref()?[k];
        known(&self.net.plan, &book, &self.net.rids[pos], *pos, *by, *to, m, 0)
    }

    /// One message made by the adversary for an honest party, with what it should lead to.
    fn concoct(&mut self, g: &mut Gen, x: usize) -> Option<Packet> {
        let xv = self.net.plan.vid(x);
        let mal: Vec<Vid> = bits(self.net.mal).map(|i| self.net.plan.vid(i)).collect();
        let from = if g.chance(1, 12) { self.outsider } else { *g.pick(&mal) };
        self.seed = self.seed.wrapping_add(1);
        let npool = self.net.pool.as_ref().map(|p| p.len()).unwrap_or(0);
        let q = self.net.pos(x)?;
        let recipe = g.below(7);
        let name;
        let mut k: Known = match recipe {
            0 | 1 => {
                name = "replay";
                // an existing message of this or the other session
                if npool > 0 && g.chance(3, 4) {
                    // prefer own messages
                    let own: Vec<usize> = (0..npool)
                        .filter(|i| Some(from) == self.net.pool.as_ref().map(|p| self.net.plan.vid(p[*i].1)))
                        .collect();
                    let i = if !own.is_empty() && g.chance(2, 3) { *g.pick(&own) } else { g.below(npool) };
                    self.pool_known(i)?
                } else if !self.foreign.is_empty() {
                    g.pick(&self.foreign).clone()
                } else {
                    return None;
                }
            }
            2 | 3 => {
                name = "forged";
                self.forged(g, x, from)?
            }
            4 => {
                name = "mixed";
                let mut srcs = Vec::new();
                for _ in 0..3 {
                    srcs.push(match g.below(4) {
                        0 if !self.foreign.is_empty() => g.pick(&self.foreign).clone(),
                        1 => self.forged(g, x, from)?,
                        _ if npool > 0 => {
                            let own: Vec<usize> = (0..npool)
                                .filter(|i| Some(from) == self.net.pool.as_ref().map(|p| self.net.plan.vid(p[*i].1)))
                                .collect();
                            let i = if !own.is_empty() && g.chance(3, 4) { *g.pick(&own) } else { g.below(npool) };
                            self.pool_known(i)?
                        }
                        _ => return None,
                    });
                }
                // mostly the natural slots, sometimes other ones
                let slot = |g: &mut Gen, s: usize| if g.chance(1, 4) { g.below(3) } else { s };
                let parts = [
                    srcs[0].parts[slot(g, 0)].clone(),
                    srcs[g.below(3)].parts[slot(g, 1)].clone(),
                    srcs[g.below(3)].parts[slot(g, 2)].clone(),
                ];
                let json = mix(&srcs[0].json, &parts[0].json, &parts[1].json, &parts[2].json)?;
                Known { parts, json, what: format!("mix of [{}], [{}], [{}]", srcs[0].what, srcs[1].what, srcs[2].what) }
            }
            5 => {
                name = "tampered";
                let own: Vec<usize> = (0..npool)
                    .filter(|i| Some(from) == self.net.pool.as_ref().map(|p| self.net.plan.vid(p[*i].1)))
                    .collect();
                let src = if !own.is_empty() && g.chance(3, 4) {
                    // the newest ones are more interesting
                    let i = own[own.len() - 1 - g.below(own.len().min(4))];
                    self.pool_known(i)?
                } else {
                    self.forged(g, x, from)?
                };
                let which = g.below(3);
                let json = tamper(g, &src.json, Some(which))?;
                let m = msg_from(&json)?;
                let mut k = src.clone();
                let changed = to_v(&m);
                if changed != to_v(&msg_from(&src.json)?) {
                    k.parts[which].signer = None;
                }
                k.json = changed;
                k.what = format!("tampered (part {which}) {}", src.what);
                k
            }
            _ => {
                name = "repeated";
                // exactly what was delivered before
                let mine: Vec<usize> = (0..self.sent.len()).filter(|s| self.sent[*s].0 == x).collect();
                if mine.is_empty() {
                    return None;
                }
                let (_, f, m, d) = self.sent[*g.pick(&mine)].clone();
                *self.injected.entry(name).or_default() += 1;
                return Some(Packet { from: f, to: x, msg: m, desc: Desc { what: format!("again: {}", d.what), genuine: false, ..d } });
            }
        };
        // attribution to somebody else
        let mut from = from;
        if self.spoof && g.chance(1, 4) {
            from = self.net.plan.vid(g.below(self.net.plan.n()));
        }
        if g.chance(1, 10) {
            // the destination is not protected; changing it has no effect
            k.what = format!("redirected {}", k.what);
        }
        let signer = if k.parts.iter().enumerate().all(|(s, p)| p.kind as usize == s && p.signer == k.parts[0].signer) {
            k.parts[0].signer
        } else {
            None
        };
        let unified = k.parts.iter().all(|p| p.rid == k.parts[0].rid && p.sid == k.parts[0].sid);
        let this_session = k.parts.iter().all(|p| p.this_session);
        let rid = unified.then(|| k.parts[0].rid.clone());
        let cls = [k.parts[0].cls.clone(), k.parts[1].cls.clone(), k.parts[2].cls.clone()];
        let pos = rid.as_ref().and_then(|r| self.net.pos_of(r));
        let expect = match pos {
            Some(pos) if signer == Some(from) && this_session => {
                expect(&self.net.plan, self.net.sid.as_ref(), pos, xv, from, &cls)?
            }
            _ => Expect::Prov(from),
        };
        let msg = msg_from(&k.json)?;
        *self.injected.entry(name).or_default() += 1;
        let _ = q;
        Some(Packet {
            from,
            to: x,
            msg,
            desc: Desc { signer, unified, this_session, rid, expect, genuine: false, what: format!("{name}: {}", k.what) },
        })
    }

    /// A message signed by a malicious party with contents of our choice.
    fn forged(&mut self, g: &mut Gen, x: usize, from: Vid) -> Option<Known> {
        let q = self.net.pos(x)?;
        let xv = self.net.plan.vid(x);
        let all: Vec<(Pos, RoundId)> = self.net.rids.iter().map(|(p, r)| (*p, r.clone())).collect();
        let (pos, rid) = match g.below(8) {
            0..=3 => (Some(q), self.net.rids[&q].clone()),
            4 | 5 => {
                // one of those that may come next
                let next: Vec<_> = all.iter().filter(|(p, _)| *p != q && self.net.plan.acceptable(q, x, *p)).collect();
                if next.is_empty() {
                    (Some(q), self.net.rids[&q].clone())
                } else {
                    let (p, r) = g.pick(&next);
                    (Some(*p), r.clone())
                }
            }
            6 => {
                let (p, r) = g.pick(&all).clone();
                (Some(p), r)
            }
            _ => {
                let r = RoundId::new([0u8, 250, 255, 77][g.below(4)]);
                (self.net.pos_of(&r), r)
            }
        };
        let this_session = !g.chance(1, 8);
        let by = self.net.plan.idx(from);
        let book = Book::new(&self.net.log.get());
        let made = |kind: u8| -> Option<Part> {
            let pos = pos?;
            if pos.echo {
                return None;
            }
            let dest = if kind == DM { xv.0 } else { 0 };
            by?;
            book.made.get(&(pos.p, from.0, pos.stage, pos.alt, kind, dest))?.first().cloned()
        };
        let mut cls: Vec<Cls> = Vec::new();
        let mut bytes: [Option<Vec<u8>>; 3] = [None, None, None];
        let regular = g.chance(3, 4);
        for k in KINDS {
            let wanted = pos.map(|p| if p.echo { k == NB } else { shape_has(self.net.plan.shape(p), k) }).unwrap_or(false);
            let c = if !wanted && regular {
                Cls::None
            } else {
                match (g.below(6), made(k)) {
                    (0 | 1 | 2, Some(p)) => Cls::Part(p),
                    (3, Some(mut p)) => {
                        p.flags |= 1;
                        Cls::Part(p)
                    }
                    (4, Some(mut p)) => {
                        p.tag ^= 1;
                        Cls::Part(p)
                    }
                    (5, _) => Cls::None,
                    _ => Cls::Garbage,
                }
            };
            bytes[k as usize] = match &c {
                Cls::None => None,
                Cls::Part(p) => Some(ser::<F, _>(p)),
                _ => Some(garbage(g)),
            };
            cls.push(c);
        }
        self.seed = self.seed.wrapping_add(1);
        let sid = if this_session { &self.net.sid } else { &self.other_sid };
        let m = forge::<F>(from, sid, &rid, xv, bytes, self.seed);
        let json = to_v(&m);
        let mk = |k: u8| {
            Some(PartInfo {
                json: part(&json, k as usize)?.clone(),
                signer: Some(from),
                kind: k,
                this_session,
                sid: !this_session as u8,
                rid: rid.clone(),
                cls: cls[k as usize].clone(),
            })
        };
        let brief: Vec<String> = cls
            .iter()
            .map(|c| match c {
                Cls::None => "none".into(),
                Cls::Garbage => "garbage".into(),
                Cls::Part(p) => format!("part(flags {}, to {})", p.flags, p.to),
                Cls::Pack(..) => "pack".into(),
            })
            .collect();
        let parts = [mk(DM)?, mk(EB)?, mk(NB)?];
        Some(Known { parts, json, what: format!("signed by {from:?} for {pos:?}/{rid:?}: {brief:?}") })
    }

    pub fn inject(&mut self, g: &mut Gen) -> CaseResult {
        let targets = self.honest_targets();
        if targets.is_empty() {
            return Ok(());
        }
        let x = *g.pick(&targets);
        let Some(p) = self.concoct(g, x) else { return Ok(()) };
        self.sent.push((x, p.from, p.msg.clone(), p.desc.clone()));
        self.net.deliver(p)?;
        Ok(())
    }
}
type CaseResult = Result<(), Fail>;

pub struct AdvKnobs {
    pub budget: usize,
    pub spoof: bool,
    /// out of 8: how often messages of malicious parties get lost
    pub drop: usize,
    pub stop_early: bool,
    pub knobs: Knobs,
}
pub const ADV: AdvKnobs = AdvKnobs {
    budget: 8,
    spoof: false,
    drop: 1,
    stop_early: true,
    knobs: Knobs { nmin: 2, nmax: 5, stages: 4, ..KNOBS },
};

pub const ADV_CHAIN: AdvKnobs =
    AdvKnobs { budget: 10, drop: 0, knobs: Knobs { nmin: 2, nmax: 4, stages: 2, full: 6, ..KNOBS }, ..ADV };

pub fn run_adv(g: &mut Gen, ctx: &mut Ctx, k: AdvKnobs) -> CaseResult {
    let cfg = Arc::new(gen_cfg(g, k.knobs));
    let fmt = g.below(4);
    with_format!(fmt, F => attack::<T1, F>(g, ctx, vec![cfg], fmt, k))
}

pub fn run_adv_chained(g: &mut Gen, ctx: &mut Ctx, k: AdvKnobs) -> CaseResult {
    let tree = [1, 1, 2, 3, 4][g.below(5)];
    let fmt = g.below(4);
    {
        let cfgs = gen_cfgs(g, leaves(tree), k.knobs);
        with_both!(tree, fmt, T, F => attack::<T, F>(g, ctx, cfgs, fmt, k))
    }
}

fn attack<T: Tree, F: WireFormat>(
    g: &mut Gen,
    ctx: &mut Ctx,
    cfgs: Vec<Arc<Cfg>>,
    fmt: usize,
    k: AdvKnobs,
) -> CaseResult {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    if keys().is_none() {
        ctx.label("message structure unknown");
    }
    // another session of the same protocol, to learn round identifiers and to have foreign messages
    let log2 = Log::default();
    let mut pre = Net::<T::Protocol, F>::new(plan.clone(), log2.clone(), b"other session", 77, no_style(), |_| {
        T::build(&cfgs, &log2, &[])
    })?;
    pre.pool = Some(vec![]);
    pre.check_model = false;
    pre.run(&mut Gen::replay(vec![]), true)?;
    let book2 = Book::new(&log2.get());
    let rids = registry(&plan, &pre.rids);
    let foreign: Vec<Known> = pre
        .pool
        .take()
        .unwrap()
        .iter()
        .filter_map(|(pos, by, to, m)| known(&plan, &book2, &rids[pos], *pos, *by, *to, m, 1))
        .collect();

    let log = Log::default();
    let style = gen_style(g, n);
    let mal = {
        let m = g.mask(n) & g.mask(n);
        if m == 0 { 1 << g.below(n) } else { m }
    };
    let mut net = Net::<T::Protocol, F>::new(plan.clone(), log.clone(), b"this session", g.u64(), style, |_| {
        T::build(&cfgs, &log, &[])
    })?;
    net.kind_local = "C03:local-error";
    net.kind_reject = "C08:rejected";
    net.trace = Some(vec![]);
    net.pool = Some(vec![]);
    net.mal = mal;
    net.kinds = ctx.kinds;
    net.rids.extend(rids);
    let mut arena = Arena {
        net,
        other_sid: SessionId::from_seed::<SP<F>>(b"other session"),
        foreign,
        sent: vec![],
        outsider: Vid(7777),
        seed: 1000,
        injected: BTreeMap::new(),
        spoof: k.spoof,
    };
    let mut budget = g.range(1, k.budget);
    let when = g.range(1, 6);
    let stop_at = if k.stop_early && g.chance(1, 6) { g.below(60) + 1 } else { usize::MAX };
    let mut dropped = 0;
    let end = campaign(g, ctx, &mut arena, &mut budget, when, stop_at, k, &mut dropped);
    if !end.as_ref().is_err_and(|e| ctx.counts(e)) {
        check_fins(&arena.net)?;
    }
    end?;
    check_entries(&arena.net)?;
    for (k, _) in &arena.net.softs {
        ctx.label(format!("passed over ({k})"));
    }
    for (k, v) in &arena.injected {
        ctx.add(format!("injected {k}"), *v);
    }
    ctx.add("dropped", dropped);
    ctx.add("early", arena.net.stats.early);
    let mut blamed = 0;
    for node in &arena.net.nodes {
        if mal & (1 << node.i) == 0 {
            blamed += node.m.prov.len() + node.m.unprov.len();
            if let St::Done(r) = &node.st {
                if r.provable_errors.len() + r.unprovable_errors.len() == 0 {
                    ctx.label("clean report");
                }
                if matches!(r.outcome, manul::session::SessionOutcome::Result(_)) {
                    ctx.label("finished");
                }
            }
        }
    }
    ctx.add("offences recorded", blamed as u64);
    if arena.injected.values().sum::<u64>() > 0 && arena.net.stats.delivered > 3 {
        ctx.nontrivial();
    }
    ctx.note(|| {
        format!(
            "format {fmt}, {}, malicious {mal:b}, injected: {:?}",
            plan.describe(),
            arena.sent.iter().filter(|s| !s.3.genuine).map(|s| &s.3.what).collect::<Vec<_>>()
        )
    });
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn campaign<P, F>(
    g: &mut Gen,
    ctx: &mut Ctx,
    arena: &mut Arena<P, F>,
    budget: &mut usize,
    when: usize,
    stop_at: usize,
    k: AdvKnobs,
    dropped: &mut u64,
) -> CaseResult
where
    P: manul::protocol::Protocol<Vid, Result = crate::proto::Res>,
    F: WireFormat,
{
    let (mal, n) = (arena.net.mal, arena.net.nodes.len());
    loop {
        let acts = arena.net.actions(true);
        if *budget > 0 && (g.chance(when, 16) || acts.is_empty()) {
            *budget -= 1;
            arena.inject(g)?;
            continue;
        }
        if acts.is_empty() || arena.net.steps > stop_at {
            break;
        }
        let act = arena.net.choose(g, &acts);
        if let Action::Deliver(w) = act {
            let p = &arena.net.wires[w];
            let from = arena.net.plan.idx(p.from);
            if from.map(|f| mal & (1 << f) != 0).unwrap_or(false) && mal & (1 << p.to) == 0 {
                if k.drop > 0 && g.chance(k.drop, 8) {
                    arena.net.wires.remove(w);
                    *dropped += 1;
                    continue;
                }
                arena.sent.push((p.to, p.from, p.msg.clone(), p.desc.clone()));
            }
        }
        arena.net.perform(act)?;
        ensure!(arena.net.steps < 100_000, "hang", "the simulation does not come to an end");
    }
    // stop everybody who is still running
    for i in 0..n {
        if mal & (1 << i) != 0 || !arena.net.active(i) {
            continue;
        }
        let St::Active(a) = &arena.net.nodes[i].st else { continue };
        let never = a.session.can_finalize(&a.accum) == CanFinalize::Never;
        let due = if never { !g.chance(1, 8) } else { g.chance(1, 8) };
        arena.net.terminate(i, due)?;
        ctx.label(if never { "ended: never" } else { "ended: terminated" });
    }
    Ok(())
}

pub fn no_style() -> Style {
    Style { slow: 0, slow_links: vec![], lazy: 0, lifo: false, strength: 0 }
}

/// Every round of an honest party was finalized once, in order, with exactly the right payloads and artifacts.
pub fn check_fins<P: manul::protocol::Protocol<Vid, Result = crate::proto::Res>, F: WireFormat>(net: &Net<P, F>) -> CaseResult {
    let log = net.log.get();
    let book = Book::new(&log);
    for node in &net.nodes {
        if net.mal & (1 << node.i) != 0 {
            continue;
        }
        let me = node.vid.0;
        let mains: Vec<Pos> = net.plan.paths[node.i].iter().filter(|p| !p.echo).copied().collect();
        let mut next = 0;
        let mut received: BTreeMap<(Pos, u16), usize> = BTreeMap::new();
        for e in &log {
            match e {
                Ev::Recv { p, me: m, from, stage, alt, pay } if *m == me => {
                    let pos = Pos { p: *p, stage: *stage, alt: *alt, echo: false };
                    ensure!(
                        mains.get(next) == Some(&pos),
                        "C02:wrong-round",
                        "v{me}: a message is handed to {pos:?} while {next} rounds were finalized; {}",
                        net.story()
                    );
                    let c = received.entry((pos, *from)).or_default();
                    *c += 1;
                    ensure!(*c == 1, "C02:twice", "v{me}: {pos:?} was handed a message of v{from} {c} times; {}", net.story());
                    ensure!(
                        net.plan.expecting(pos, node.i).contains(&Vid(*from)),
                        "C02:unexpected",
                        "v{me}: {pos:?} was handed a message of v{from}, which it does not expect; {}",
                        net.story()
                    );
                    for k in KINDS {
                        ensure!(
                            pay.parts[k as usize].is_some() == shape_has(net.plan.shape(pos), k),
                            "C02:kinds",
                            "v{me}: {pos:?} was handed the wrong kinds of parts by v{from}"
                        );
                    }
                }
                Ev::Fin { p, me: m, stage, alt, pays, arts, .. } if *m == me => {
                    let pos = Pos { p: *p, stage: *stage, alt: *alt, echo: false };
                    ensure!(
                        mains.get(next) == Some(&pos),
                        "C02:order",
                        "v{me}: {pos:?} is finalized, but {:?} should be; {}",
                        mains.get(next),
                        net.story()
                    );
                    next += 1;
                    let want = book.pays(&net.plan, pos, node.i)?;
                    if *pays != want {
                        fail!("C02:payloads", "v{me}: {pos:?} is finalized with {pays:?} instead of {want:?}; {}", net.story());
                    }
                    let want = book.artifacts(&net.plan, pos, node.i)?;
                    if *arts != want {
                        fail!("C02:artifacts", "v{me}: {pos:?} is finalized with {arts:?} instead of {want:?}; {}", net.story());
                    }
                }
                _ => {}
            }
        }
        let finished = matches!(&node.st, St::Done(r) if matches!(r.outcome, manul::session::SessionOutcome::Result(_)));
        ensure!(!finished || next == mains.len(), "C02:skipped", "v{me} finished after {next} of {} rounds", mains.len());
    }
    Ok(())
}

const RULE: &str = "a case is a generated protocol, a wire format, a schedule of single session calls, a set of malicious \
    parties and up to eight attacks on honest parties at chosen moments (replays from this and another session, forged \
    rounds, sessions and contents, mixed parts, tampered bytes, repetitions, losses); non-trivial if at least one \
    attack reached a running honest session that also exchanged ordinary messages";
const ASSUME: &[&str] = &[
    "the transport attributes messages to their real senders (except in the spoofing facet of C04)",
    "messages between honest parties are delivered once and unaltered, at most one round early",
];

pub fn checks() -> Vec<Check> {
    let mixed = |q| facet("attacks", q, |g, c| run_adv(g, c, ADV));
    let focused = |q| {
        facet("one-round-early", q, |g, c| {
            run_adv(g, c, AdvKnobs { budget: 12, drop: 0, knobs: Knobs { nmin: 2, nmax: 3, stages: 3, siblings: true, full: 7, ..KNOBS }, ..ADV })
        })
    };
    let echo = |q| {
        facet("echo", q, |g, c| {
            run_adv(g, c, AdvKnobs { budget: 10, drop: 0, knobs: Knobs { nmin: 2, nmax: 4, stages: 3, echo: 7, full: 5, ..KNOBS }, ..ADV })
        })
    };
    let branches = |q| {
        facet("branches", q, |g, c| {
            run_adv(g, c, AdvKnobs { budget: 6, drop: 0, knobs: Knobs { nmin: 2, nmax: 4, stages: 4, branch: 7, echo: 5, full: 5, ..KNOBS }, ..ADV })
        })
    };
    let chained = |q| facet("chained", q, |g, c| run_adv_chained(g, c, ADV_CHAIN));
    let spoof = |q| facet("spoofing", q, |g, c| run_adv(g, c, AdvKnobs { budget: 5, spoof: true, ..ADV }));
    vec![
        Check { id: "C02", rule: RULE, assumptions: ASSUME, kinds: &["C02", "C01:rejected", "C08:rejected"], facets: {
            let mut f = crate::honest::c02_facets();
            f.extend([mixed(8000), focused(7000), echo(5000), chained(4000), branches(4000)]);
            f
        } },
        Check { id: "C03", rule: RULE, assumptions: ASSUME, kinds: &["C03", "C08:rejected", "panic", "hang"], facets: {
            let mut f = vec![mixed(9000), focused(6000), echo(5000), chained(3000), branches(5000)];
            f.extend(crate::byz::facets(500));
            f
        } },
        Check { id: "C04", rule: RULE, assumptions: ASSUME, kinds: &["C04"], facets: vec![mixed(7000), focused(5000), echo(4000), spoof(4000), chained(3000), branches(5000)] },
        Check { id: "C05", rule: RULE, assumptions: ASSUME, kinds: &["C05"], facets: {
            let mut f = vec![mixed(9000), focused(6000), echo(5000), chained(3000), branches(5000)];
            f.extend(crate::byz::facets(300));
            f
        } },
        Check { id: "C06", rule: RULE, assumptions: ASSUME, kinds: &["C06"], facets: vec![mixed(9000), focused(6000), echo(5000), chained(3000), branches(5000)] },
        Check { id: "C08", rule: RULE, assumptions: ASSUME, kinds: &["C08", "C01:rejected"], facets: {
            let mut f = vec![mixed(8000), focused(5000), echo(5000), chained(3000), branches(6000)];
            f.extend(crate::honest::accepted_facets());
            f.extend(crate::byz::facets(700));
            f
        } },
    ]
}
