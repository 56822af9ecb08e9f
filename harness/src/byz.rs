//! Networks with parties that lie in their own rounds: equivocation, bad contents, corrupted echo packs.
//! C07, C08, C09; the evidence collected here is the raw material of C10 and C11.
use std::{collections::BTreeMap, collections::BTreeSet, sync::Arc};

use manul::{
    protocol::{Protocol, RoundId},
    session::{CanFinalize, Evidence, SessionId, SessionOutcome, WireFormat},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha3::{Digest, Sha3_256};

use crate::{
    adv::no_style,
    chain::*,
    ensure, fail,
    net::*,
    params::{de, ser, Bin, Fixed, Json, Vid, SP},
    proto::*,
    runner::{facet, Check, Ctx, Fail},
    util::{bits, Gen},
    wire::*,
    with_both,
};

type CaseRes = Result<(), Fail>;

/// What has to be in the report of `x` if it processed the message of `y` in round `pos`.
#[derive(Clone, Debug)]
pub struct Claim {
    pub x: usize,
    pub y: Vid,
    pub pos: Pos,
    pub culprits: Vec<Vid>,
    pub provable: bool,
    pub what: String,
}

pub struct Scene<T: Tree, F: WireFormat> {
    pub net: Net<T::Protocol, F>,
    pub cfgs: Vec<Arc<Cfg>>,
    /// Another session of the same parties: position, maker, recipient, message
    pub foreign: Vec<(Pos, usize, usize, Value)>,
    pub other_sid: SessionId,
    /// Messages as altered by their makers
    pub forged: Vec<(Pos, usize, usize, Value)>,
    pub claims: Vec<Claim>,
    /// Contents of echo broadcasts as they were delivered: (recipient, round, sender)
    pub shown: BTreeMap<(usize, Pos, Vid), Vec<u8>>,
    /// Rounds in which somebody altered its broadcasts
    pub altered: BTreeSet<Pos>,
    pub did: Vec<String>,
    pub seed: u64,
}

#[derive(Clone, Copy)]
pub struct ByzKnobs {
    pub knobs: Knobs,
    /// out of 16: how often a message of a malicious party is replaced, in an ordinary and in an echo round
    pub main: usize,
    pub echo: usize,
    /// out of 8: how often parties run with twisted contents
    pub twist: usize,
    /// Only equivocate
    pub equivocate: bool,
    /// number of malicious parties is at most n - `honest`
    pub honest: usize,
}
pub const BYZ: ByzKnobs = ByzKnobs {
    knobs: Knobs { nmin: 2, nmax: 5, stages: 3, siblings: false, branch: 3, early: true, full: 5, echo: 6, extra: true },
    main: 3,
    echo: 3,
    twist: 4,
    equivocate: false,
    honest: 1,
};

/// The hash that is signed in an echo broadcast (0), normal broadcast (1), direct message (2).
pub fn part_hash(kind: u8, payload: Option<&[u8]>) -> Vec<u8> {
    let code = [2u8, 0, 1][kind as usize];
    let d = Sha3_256::new().chain_update(b"ProtocolMessagePart").chain_update([code]);
    match payload {
        None => d.chain_update([0u8]),
        Some(p) => d.chain_update([1u8]).chain_update((p.len() as u64).to_be_bytes()).chain_update(p),
    }
    .finalize()
    .to_vec()
}

/// Where the list of pairs is in an echo pack.
pub fn list_of(v: &Value) -> Option<Path> {
    let pair = |e: &Value| e.as_array().map(|a| a.len() == 2 && a[0].is_number()).unwrap_or(false);
    let mut todo = vec![Path::new()];
    while let Some(p) = todo.pop() {
        match at(v, &p)? {
            Value::Array(a) if a.iter().all(pair) => return Some(p),
            Value::Object(o) => todo.extend(o.keys().map(|k| p.iter().cloned().chain([Key::S(k.clone())]).collect::<Path>())),
            _ => {}
        }
    }
    None
}

/// Replaces all leaves equal to `from` by `to`; returns how many there were.
pub fn replace_leaf(v: &mut Value, from: &Value, to: &Value) -> usize {
    let all: Vec<Path> = paths(v, true);
    let mut n = 0;
    for p in all {
        if let Some(x) = at_mut(v, &p) {
            if x == from {
                *x = to.clone();
                n += 1;
            }
        }
    }
    n
}

pub fn gen_twist(g: &mut Gen, cfg: &Cfg) -> Twist {
    let stage = g.below(cfg.stages.len());
    let shape = cfg.stages[stage].shape;
    let have: Vec<u8> = KINDS.into_iter().filter(|k| shape_has(shape, *k)).collect();
    let k = if have.is_empty() { NB } else { *g.pick(&have) };
    let what = match g.below(8) {
        0 | 1 => What::BadTag(k),
        2 | 3 => What::BadLink(k),
        4 | 5 => What::BadFold(k),
        6 => What::Unprov(k),
        _ if shape_has(shape, DM) => What::WrongTo,
        _ => What::Alter(k),
    };
    let to = if g.chance(1, 3) { g.mask(cfg.n()) } else { 0xffff };
    Twist { stage: stage as u8, what, to }
}

/// Runs two sessions, the second one with malicious parties, and collects what there is to judge.
pub fn scene<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>, k: ByzKnobs) -> Result<Scene<T, F>, Fail> {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let mut foreign = Vec::new();
    let log2 = Log::default();
    let mut pre =
        Net::<T::Protocol, F>::new(plan.clone(), log2.clone(), b"other session", 77, no_style(), |_| T::build(&cfgs, &log2, &[]))?;
    pre.pool = Some(vec![]);
    pre.check_model = false;
    if g.chance(1, 2) {
        pre.run(&mut Gen::replay(vec![]), true)?;
        foreign = pre.pool.take().unwrap().iter().map(|(p, b, t, m)| (*p, *b, *t, to_v(m))).collect();
    }
    let mal: u16 = {
        let mut m = g.mask(n);
        if g.chance(1, 2) {
            m &= g.mask(n);
        }
        while m.count_ones() as usize > n - k.honest {
            m &= m - 1;
        }
        if m == 0 { 1 << g.below(n) } else { m }
    };
    let mut twists: Vec<Vec<Vec<Twist>>> = Vec::new();
    for i in 0..n {
        let mut per_leaf = vec![Vec::new(); cfgs.len()];
        if mal & (1 << i) != 0 && !k.equivocate && g.below(8) < k.twist {
            for _ in 0..g.range(1, 2) {
                let p = g.below(cfgs.len());
                let t = gen_twist(g, &cfgs[p]);
                per_leaf[p].push(t);
            }
        }
        twists.push(per_leaf);
    }
    let log = Log::default();
    let style = gen_style(g, n);
    let mut net = Net::<T::Protocol, F>::new(plan, log.clone(), b"this session", g.u64(), style, |i| T::build(&cfgs, &log, &twists[i]))?;
    net.kind_local = "C03:local-error";
    net.trace = Some(vec![]);
    net.pool = Some(vec![]);
    net.mal = mal;
    net.kinds = ctx.kinds;
    net.check_model = false;
    net.desync = true;
    let mut sc = Scene::<T, F> {
        net,
        cfgs,
        foreign,
        other_sid: SessionId::from_seed::<SP<F>>(b"other session"),
        forged: vec![],
        claims: vec![],
        shown: BTreeMap::new(),
        altered: BTreeSet::new(),
        did: vec![],
        seed: 5000,
    };
    for (i, t) in twists.iter().enumerate() {
        for t in t.iter().flatten() {
            sc.did.push(format!("{:?}: {t:?}", sc.net.plan.vid(i)));
        }
    }
    loop {
        let acts = sc.net.actions(true);
        if acts.is_empty() {
            break;
        }
        let act = sc.net.choose(g, &acts);
        if let Action::Deliver(w) = act {
            sc.tweak(g, ctx, w, &k)?;
        }
        sc.net.perform(act)?;
        ensure!(sc.net.steps < 100_000, "hang", "the simulation does not come to an end");
    }
    for i in 0..n {
        if mal & (1 << i) != 0 || !sc.net.active(i) {
            continue;
        }
        let St::Active(a) = &sc.net.nodes[i].st else { continue };
        let never = a.session.can_finalize(&a.accum) == CanFinalize::Never;
        sc.net.terminate(i, never)?;
        ctx.label(if never { "ended: never" } else { "ended: terminated" });
    }
    Ok(sc)
}

impl<T: Tree, F: WireFormat> Scene<T, F> {
    fn made(&self, pos: Pos, by: Vid, kind: u8, to: Vid) -> Option<Part> {
        let dest = if kind == DM { to.0 } else { 0 };
        self.net.log.0.lock().unwrap().iter().find_map(|e| match e {
            Ev::Made { p, me, stage, alt, kind: k, to, part }
                if *p == pos.p && *me == by.0 && *stage == pos.stage && *alt == pos.alt && *k == kind && *to == dest =>
            {
                Some(part.clone())
            }
            _ => None,
        })
    }

    fn next_seed(&mut self) -> u64 {
        self.seed += 1;
        self.seed
    }

    /// Possibly replaces a message of a malicious party about to be delivered to an honest one.
    fn tweak(&mut self, g: &mut Gen, ctx: &mut Ctx, w: usize, k: &ByzKnobs) -> CaseRes {
        let (from, x) = (self.net.wires[w].from, self.net.wires[w].to);
        let Some(pos) = self.net.wires[w].desc.rid.as_ref().and_then(|r| self.net.pos_of(r)) else { return Ok(()) };
        if !self.net.active(x) || self.net.mal & (1 << x) != 0 {
            return Ok(());
        }
        let xv = self.net.plan.vid(x);
        let z = self.net.plan.idx(from).unwrap();
        let mut parts: [Option<Vec<u8>>; 3] =
            [DM, EB, NB].map(|k| self.made(pos, from, k, xv).map(|p| ser::<F, _>(&p)));
        if !pos.echo {
            if let Some(b) = &parts[EB as usize] {
                self.shown.insert((x, pos, from), b.clone());
            }
        }
        if self.net.mal & (1 << z) == 0 || keys().is_none() {
            return Ok(());
        }
        let rid = self.net.rids[&pos].clone();
        let brief;
        let mut claim: Option<(Vec<Vid>, bool)> = None;
        if pos.echo {
            if g.below(16) >= k.echo || k.equivocate {
                return Ok(());
            }
            let json = to_v(&self.net.wires[w].msg);
            let Some(pack) = part(&json, NB as usize).and_then(payload_of) else { return Ok(()) };
            let Some((name, bytes, c)) = self.repack(g, x, from, pos, pack) else { return Ok(()) };
            brief = name;
            claim = c;
            parts = [None, None, bytes];
            if g.chance(1, 16) {
                parts[g.below(2)] = Some(vec![1, 2, 3]);
                claim = Some((vec![from], true));
            }
        } else {
            if g.below(16) >= k.main {
                return Ok(());
            }
            let have: Vec<u8> = KINDS.into_iter().filter(|k| parts[*k as usize].is_some()).collect();
            let shape = self.net.plan.shape(pos);
            let eq = k.equivocate || g.chance(1, 2);
            let kind = if eq && shape_has(shape, EB) {
                EB
            } else if have.is_empty() {
                return Ok(());
            } else {
                *g.pick(&have)
            };
            let Some(mut p) = self.made(pos, from, kind, xv) else { return Ok(()) };
            let op = if eq { g.below(3) } else { 2 + g.below(7) };
            match op {
                0 => brief = format!("signs part {kind} again"),
                1 | 2 => {
                    // few variants, so that several recipients see the same one
                    p.data ^= 1 + g.below(2) as u64;
                    parts[kind as usize] = Some(ser::<F, _>(&p));
                    brief = format!("alters part {kind}");
                }
                3 => {
                    p.flags |= 1;
                    parts[kind as usize] = Some(ser::<F, _>(&p));
                    brief = format!("flags part {kind}");
                }
                4 => {
                    p.tag ^= 2;
                    parts[kind as usize] = Some(ser::<F, _>(&p));
                    brief = format!("spoils the tag of part {kind}");
                }
                5 => {
                    p.link ^= 2;
                    parts[kind as usize] = Some(ser::<F, _>(&p));
                    brief = format!("spoils the link of part {kind}");
                }
                6 => {
                    parts[kind as usize] = Some(vec![0xff; g.below(5)]);
                    claim = Some((vec![from], true));
                    brief = format!("part {kind} is garbage");
                }
                7 => {
                    parts[kind as usize] = None;
                    claim = Some((vec![from], true));
                    brief = format!("part {kind} is left out");
                }
                _ => {
                    let Some(absent) = KINDS.into_iter().find(|k| !shape_has(shape, *k)) else { return Ok(()) };
                    parts[absent as usize] = Some(ser::<F, _>(&p));
                    claim = Some((vec![from], true));
                    brief = format!("part {absent} is added");
                }
            }
            if kind == EB {
                self.altered.insert(pos);
                match &parts[EB as usize] {
                    Some(b) => self.shown.insert((x, pos, from), b.clone()),
                    None => self.shown.remove(&(x, pos, from)),
                };
            }
        }
        let seed = self.next_seed();
        self.net.wires[w].msg = forge::<F>(from, &self.net.sid, &rid, xv, parts, seed);
        if self.net.pool.is_some() {
            let v = to_v(&self.net.wires[w].msg);
            self.forged.push((pos, z, x, v));
        }
        self.net.wires[w].desc.what = format!("{pos:?} message of {from:?} where it {brief}");
        self.did.push(format!("{from:?} to {xv:?} in {pos:?}: {brief}"));
        let short: String = brief.split(':').next().unwrap().chars().filter(|c| !c.is_ascii_digit()).collect();
        ctx.label(format!("{}: {short}", if pos.echo { "echo" } else { "main" }));
        if let Some((culprits, provable)) = claim {
            self.claims.push(Claim { x, y: from, pos, culprits, provable, what: brief });
        }
        Ok(())
    }

    /// Changes an echo pack. Returns a description, the new contents, and who is to blame (and whether provably).
    #[allow(clippy::type_complexity)]
    fn repack(
        &mut self,
        g: &mut Gen,
        x: usize,
        y: Vid,
        pos: Pos,
        pack: Vec<u8>,
    ) -> Option<(String, Option<Vec<u8>>, Option<(Vec<Vid>, bool)>)> {
        let me = Some((vec![y], true));
        let main = Pos { echo: false, ..pos };
        // a pack made in the other session: nothing in it is for this round
        let theirs = |s: &Self| -> Option<Vec<u8>> {
            let yi = s.net.plan.idx(y)?;
            let f = s.foreign.iter().find(|f| f.0 == pos && f.1 == yi)?;
            payload_of(part(&f.3, NB as usize)?)
        };
        let parse = |b: &[u8]| -> Option<Vec<Value>> {
            let v: Value = serde_json::from_slice(b).ok()?;
            at(&v, &list_of(&v)?)?.as_array().cloned()
        };
        let entries = parse(&pack);
        if entries.is_none() || g.chance(1, 8) {
            return Some(match g.below(5) {
                0 => ("sends no pack".into(), None, me),
                1 => ("sends garbage instead of a pack".into(), Some(vec![0xff; g.below(6)]), me),
                2 => {
                    let mut b = pack.clone();
                    if b.len() < 2 {
                        return None;
                    }
                    b.truncate(b.len() - 1 - g.below(b.len() / 2));
                    ("truncates the pack".into(), Some(b), None)
                }
                3 => {
                    let other = theirs(self)?;
                    // an empty pack says nothing
                    let claim = if other == pack { None } else { me };
                    ("sends the pack of the other session".into(), Some(other), claim)
                }
                _ => {
                    let mut b = pack.clone();
                    if b.is_empty() {
                        return None;
                    }
                    let i = g.below(b.len());
                    b[i] ^= 1 << g.below(8);
                    ("flips a bit of the pack".into(), Some(b), None)
                }
            });
        }
        let mut es = entries?;
        let done = |es: Vec<Value>| {
            let mut v: Value = serde_json::from_slice(&pack).ok()?;
            let path = list_of(&v)?;
            *at_mut(&mut v, &path)? = Value::Array(es);
            serde_json::to_vec(&v).ok()
        };
        if es.is_empty() {
            // only additions are possible
            let other = theirs(self).and_then(|b| parse(&b));
            let e = other.and_then(|o| o.first().cloned())?;
            es.push(e);
            return Some(("adds an entry to an empty pack".into(), done(es), Some((vec![y], false))));
        }
        let i = g.below(es.len());
        let zv = Vid(es[i].get(0)?.as_u64()? as u16);
        let z = self.net.plan.idx(zv)?;
        match g.below(10) {
            0 => {
                es.remove(i);
                Some(("leaves out an entry".into(), done(es), Some((vec![y], false))))
            }
            1 if g.chance(1, 2) => {
                // its own broadcast, as it was echoed by somebody else
                let pool = self.net.pool.as_ref()?;
                let e = pool.iter().filter(|p| p.0 == pos).find_map(|(_, _, _, m)| {
                    let json = to_v(m);
                    let es2 = part(&json, NB as usize).and_then(payload_of).and_then(|b| parse(&b))?;
                    es2.iter().find(|e| e.get(0) == Some(&json!(y.0))).cloned()
                })?;
                es.push(e);
                Some(("adds its own entry".into(), done(es), Some((vec![y], false))))
            }
            1 => {
                let mut e = es[i].clone();
                let ids = [7777u16, y.0, 0, 65535];
                let id = *g.pick(&ids);
                if es.iter().any(|e| e.get(0) == Some(&json!(id))) {
                    return None;
                }
                *e.get_mut(0)? = json!(id);
                es.push(e);
                Some(("adds an entry".into(), done(es), Some((vec![y], false))))
            }
            2 => {
                let e = es[i].clone();
                es.push(e);
                Some(("repeats an entry".into(), done(es), me))
            }
            3 => {
                let other = parse(&theirs(self)?)?;
                let e = other.iter().find(|e| e.get(0) == Some(&json!(zv.0)))?.clone();
                es[i] = e;
                Some(("has an entry of the other session".into(), done(es), me))
            }
            4 => {
                // the same party's entry of another round
                let pool = self.net.pool.as_ref()?;
                let mut found = Vec::new();
                for (p, _, _, m) in pool.iter().filter(|p| p.0.echo && p.0 != pos) {
                    let json = to_v(m);
                    let Some(es2) = part(&json, NB as usize).and_then(payload_of).and_then(|b| parse(&b)) else { continue };
                    if let Some(e) = es2.iter().find(|e| e.get(0) == Some(&json!(zv.0))) {
                        found.push((*p, e.clone()));
                    }
                }
                if found.is_empty() {
                    return None;
                }
                let (p, e) = g.pick(&found).clone();
                es[i] = e;
                Some((format!("has an entry of another round: {p:?}"), done(es), me))
            }
            5 => {
                let j = g.below(es.len());
                if i == j {
                    return None;
                }
                let (a, b) = (es[i].get(1)?.clone(), es[j].get(1)?.clone());
                *es[i].get_mut(1)? = b;
                *es[j].get_mut(1)? = a;
                Some(("swaps two entries".into(), done(es), me))
            }
            6 => {
                let leaves = paths(&es[i], true);
                let p = g.pick(&leaves).clone();
                if !mutate(g, at_mut(&mut es[i], &p)?, true) {
                    return None;
                }
                Some(("tampers with an entry".into(), done(es), None))
            }
            7 | 8 => {
                // another part of the same party's message passed off as its echo broadcast
                let kind = if g.chance(1, 2) { NB } else { DM };
                let yi = self.net.plan.idx(y)?;
                let src = self.net.pool.as_ref()?.iter().find(|(p, by, to, _)| *p == main && *by == z && (*to == yi || kind == NB))?;
                let json = to_v(&src.3);
                let (eb, other) = (part(&json, EB as usize)?, part(&json, kind as usize)?);
                let payload = payload_of(other);
                let was = payload_of(eb);
                let e = self.rewrite(&es[i], &sig_of(eb)?, was.as_deref(), &sig_of(other)?, part_hash(kind, payload.as_deref()))?;
                es[i] = e;
                Some((format!("passes off part {kind} as an echo broadcast: of {zv:?}"), done(es), me))
            }
            _ => {
                // a colluding sender signs something else
                if self.net.mal & (1 << z) == 0 {
                    return None;
                }
                let src = self.net.pool.as_ref()?.iter().find(|(p, by, _, _)| *p == main && *by == z)?;
                let json = to_v(&src.3);
                let eb = part(&json, EB as usize)?.clone();
                let was = payload_of(&eb);
                let xv = self.net.plan.vid(x);
                let mut p = self.made(main, zv, EB, xv)?;
                p.data ^= 0x7700;
                let bytes = ser::<F, _>(&p);
                let seed = self.next_seed();
                let rid = self.net.rids.get(&main)?.clone();
                let m = to_v(&forge::<F>(zv, &self.net.sid, &rid, xv, [None, Some(bytes.clone()), None], seed));
                let e = self.rewrite(&es[i], &sig_of(&eb)?, was.as_deref(), &sig_of(part(&m, EB as usize)?)?, part_hash(EB, Some(&bytes)))?;
                es[i] = e;
                Some((format!("shows another broadcast: of the accomplice {zv:?}"), done(es), Some((vec![zv, y], true))))
            }
        }
    }

    pub fn rewrite(&self, e: &Value, sig: &Value, payload: Option<&[u8]>, new_sig: &Value, new_hash: Vec<u8>) -> Option<Value> {
        let mut e = e.clone();
        let old = hex(&part_hash(EB, payload));
        let prefixed = |s: &str| json!(s);
        if replace_leaf(&mut e, &prefixed(&old), &prefixed(&hex(&new_hash))) != 1
            && replace_leaf(&mut e, &json!(format!("0x{old}")), &json!(format!("0x{}", hex(&new_hash)))) != 1
        {
            return None;
        }
        (replace_leaf(&mut e, sig, new_sig) >= 1).then_some(e)
    }

    pub fn honest(&self) -> Vec<usize> {
        (0..self.net.plan.n()).filter(|i| self.net.mal & (1 << i) == 0).collect()
    }
    pub fn tale(&self) -> String {
        format!("malicious {:b}, did: {:?}; {}", self.net.mal, self.did, self.net.story())
    }

    /// Judges the reports and results of the honest parties.
    pub fn judge(&self, ctx: &mut Ctx) -> CaseRes {
        let plan = &self.net.plan;
        let log = self.net.log.get();
        let shared = T::shared(&self.cfgs);
        let honest = self.honest();
        let mut completed: BTreeSet<(usize, Pos)> = BTreeSet::new();
        for e in &log {
            if let Ev::Fin { p, me, stage, alt, .. } = e {
                completed.insert((plan.idx(Vid(*me)).unwrap(), Pos { p: *p, stage: *stage, alt: *alt, echo: false }));
            }
        }
        for &i in &honest {
            let node = &self.net.nodes[i];
            let St::Done(rep) = &node.st else { fail!("C03:no-report", "{:?} has no report", node.vid) };
            for v in rep.provable_errors.keys().chain(rep.unprovable_errors.keys()) {
                let culprit = plan.idx(*v).map(|j| self.net.mal & (1 << j) != 0).unwrap_or(true);
                let why = rep.provable_errors.get(v).map(|e| e.description().to_string());
                ensure!(
                    culprit,
                    "C08:blamed",
                    "{:?} blames the honest {v:?}: {why:?} {:?}; {}",
                    node.vid,
                    rep.unprovable_errors.get(v),
                    self.tale()
                );
            }
            for (v, ev) in &rep.provable_errors {
                ensure!(
                    ev.guilty_party() == v,
                    "C09:filed-wrongly",
                    "evidence against {:?} is filed under {v:?}; {}",
                    ev.guilty_party(),
                    self.tale()
                );
                ctx.label(format!("evidence: {}", kind_of(ev)));
                check_evidence::<T::Protocol, F>(ev, &shared, || self.tale())?;
            }
            // errors found by the rounds
            for e in &log {
                let Ev::Judged { me, from, verdict, stage, .. } = e else { continue };
                if *me != node.vid.0 {
                    continue;
                }
                let from = Vid(*from);
                ensure!(
                    *verdict != 2 || rep.provable_errors.contains_key(&from),
                    "C09:lost",
                    "{:?} has found a provable fault of {from:?} in stage {stage}, but does not report it; {}",
                    node.vid,
                    self.tale()
                );
                ensure!(
                    *verdict != 1 || rep.unprovable_errors.contains_key(&from),
                    "C05:not-recorded",
                    "{:?} has found an unprovable fault of {from:?} in stage {stage}, but does not report it; {}",
                    node.vid,
                    self.tale()
                );
            }
            let processed = |pos: &Pos, v: &Vid| {
                let Some(rid) = self.net.rids.get(pos) else { return false };
                node.m.must_not_miss.iter().any(|(r, vs): &(RoundId, BTreeSet<Vid>)| r == rid && vs.contains(v))
            };
            for c in self.claims.iter().filter(|c| c.x == i) {
                if !processed(&c.pos, &c.y) {
                    ctx.label("claim not tested");
                    continue;
                }
                let reported = |v: &Vid| {
                    rep.provable_errors.contains_key(v) || (!c.provable && rep.unprovable_errors.contains_key(v))
                };
                let main = Pos { echo: false, ..c.pos };
                let others = c.pos.echo
                    && self.altered.contains(&main)
                    && bits(self.net.mal).any(|j| rep.provable_errors.contains_key(&plan.vid(j)));
                ensure!(
                    c.culprits.iter().any(reported) || others,
                    "C09:unnoticed",
                    "{:?} does not report any of {:?} although {:?} in {:?}: {}; {}",
                    node.vid,
                    c.culprits,
                    c.y,
                    c.pos,
                    c.what,
                    self.tale()
                );
                let done = completed.contains(&(i, main));
                ensure!(
                    !done,
                    if c.pos.echo { "C07:completed" } else { "C02:completed" },
                    "{:?} completes {main:?} although {:?} in {:?}: {}; {}",
                    node.vid,
                    c.y,
                    c.pos,
                    c.what,
                    self.tale()
                );
                ctx.label("claim tested");
            }
        }
        // agreement
        for &a in &honest {
            for pos in plan.paths[a].iter().filter(|p| p.echo) {
                let main = Pos { echo: false, ..*pos };
                let partners = plan.cfg(*pos).echo_partners(pos.stage as usize, a);
                for b in bits(partners) {
                    if self.net.mal & (1 << b) != 0 || !plan.paths[b].contains(pos) {
                        continue;
                    }
                    let (av, bv) = (plan.vid(a), plan.vid(b));
                    // what each of them holds
                    let hold = |i: usize| -> BTreeMap<Vid, Vec<u8>> {
                        let iv = plan.vid(i);
                        let mut m: BTreeMap<Vid, Vec<u8>> = plan
                            .expecting(main, i)
                            .into_iter()
                            .filter_map(|z| Some((z, self.shown.get(&(i, main, z))?.clone())))
                            .collect();
                        if plan.cfg(main).echo_senders(main.stage as usize, i) & (1 << i) != 0 {
                            if let Some(p) = self.made(main, iv, EB, iv) {
                                m.insert(iv, ser::<F, _>(&p));
                            }
                        }
                        m
                    };
                    let (ha, hb) = (hold(a), hold(b));
                    let diff: Vec<Vid> = ha.iter().filter(|(z, d)| hb.get(z).map(|e| e != *d).unwrap_or(false)).map(|(z, _)| *z).collect();
                    if completed.contains(&(a, main)) && completed.contains(&(b, main)) {
                        ctx.label("pairs that completed");
                        ensure!(
                            diff.is_empty() && ha.len() == hb.len(),
                            "C07:disagree",
                            "{av:?} and {bv:?} both completed {main:?}, but hold different broadcasts of {diff:?} (of {:?} and {:?}); {}",
                            ha.keys(),
                            hb.keys(),
                            self.tale()
                        );
                    }
                    if diff.is_empty() {
                        continue;
                    }
                    // Has `a` learned of it from `b`?
                    let Some(rid) = self.net.rids.get(pos) else { continue };
                    let learned = self.net.nodes[a].m.must_not_miss.iter().any(|(r, vs)| r == rid && vs.contains(&bv));
                    if !learned {
                        continue;
                    }
                    ctx.label("differences learned of");
                    let St::Done(rep) = &self.net.nodes[a].st else { continue };
                    ensure!(
                        diff.iter().any(|z| rep.provable_errors.contains_key(z)),
                        "C07:unreported",
                        "{bv:?} has told {av:?} about different broadcasts of {diff:?} in {main:?}, but {av:?} reports {:?}; {}",
                        rep.provable_errors.keys(),
                        self.tale()
                    );
                    ensure!(
                        !completed.contains(&(a, main)),
                        "C07:completed",
                        "{av:?} completed {main:?} although {bv:?} has seen different broadcasts of {diff:?}; {}",
                        self.tale()
                    );
                }
            }
        }
        // what the rounds are finalized with is what they have received
        for e in &log {
            let Ev::Fin { p, me, stage, alt, pays, .. } = e else { continue };
            if self.net.mal & (1 << plan.idx(Vid(*me)).unwrap()) != 0 {
                continue;
            }
            let mut got: BTreeMap<u16, &Pay> = BTreeMap::new();
            let mut fine = BTreeSet::new();
            for r in &log {
                match r {
                    Ev::Recv { p: p2, me: m2, from, stage: s2, alt: a2, pay } if (p, me, stage, alt) == (p2, m2, s2, a2) => {
                        got.insert(*from, pay);
                    }
                    Ev::Judged { p: p2, me: m2, from, stage: s2, alt: a2, verdict: 0 } if (p, me, stage, alt) == (p2, m2, s2, a2) => {
                        fine.insert(*from);
                    }
                    _ => {}
                }
            }
            for (from, pay) in pays {
                ensure!(
                    fine.contains(from) && got.get(from) == Some(&pay),
                    "C02:payloads",
                    "v{me}: stage {stage} is finalized with a payload of v{from} it did not accept; {}",
                    self.tale()
                );
            }
        }
        Ok(())
    }
}

/// Which kind of evidence it is, for statistics only.
pub fn kind_of<P: Protocol<Vid> + Serialize, F: WireFormat>(ev: &Evidence<P, SP<F>>) -> String {
    let v = to_v(ev);
    let found = v
        .as_object()
        .and_then(|m| m.values().find_map(|v| v.as_object().filter(|o| o.len() == 1).and_then(|o| o.keys().next().cloned())))
        .unwrap_or_else(|| "?".into());
    let d = ev.description();
    let detail = ["Tag", "Link", "Fold"].into_iter().find(|k| d.contains(k)).unwrap_or("");
    format!("{found} {detail}")
}

/// The evidence convinces somebody who has only the shared data, directly and after being sent around.
pub fn check_evidence<P, F>(ev: &Evidence<P, SP<F>>, shared: &P::SharedData, tale: impl Fn() -> String) -> CaseRes
where
    P: Protocol<Vid> + Serialize + DeserializeOwned,
    F: WireFormat,
{
    let verify = |ev: &Evidence<P, SP<F>>, how: &str| -> CaseRes {
        if let Err(e) = ev.verify(shared) {
            fail!("C09:unconvincing", "evidence against {:?} ({}) does not verify{how}: {e:?}; {}", ev.guilty_party(), ev.description(), tale());
        }
        Ok(())
    };
    verify(ev, "")?;
    let mut all: Vec<(&str, Result<Evidence<P, SP<F>>, String>)> = Vec::new();
    all.push(("binary", de::<Bin, _>(&ser::<Bin, _>(ev))));
    all.push(("human readable", de::<Json, _>(&ser::<Json, _>(ev))));
    all.push(("fixed-width", de::<Fixed, _>(&ser::<Fixed, _>(ev))));
    all.push(("value tree", serde_json::from_value(to_v(ev)).map_err(|e| e.to_string())));
    for (name, back) in all {
        match back {
            Err(e) => fail!("C09:serialize", "evidence does not survive the {name} format: {e}"),
            Ok(back) => {
                ensure!(back.guilty_party() == ev.guilty_party() && back.description() == ev.description(), "C09:serialize", "evidence is different after the {name} format");
                ensure!(to_v(&back) == to_v(ev), "C09:serialize", "evidence is different after the {name} format");
                verify(&back, &format!(" after the {name} format"))?;
            }
        }
    }
    Ok(())
}

pub fn run_byz(g: &mut Gen, ctx: &mut Ctx, k: ByzKnobs, trees: &[usize]) -> CaseRes {
    let tree = *g.pick(trees);
    // the formats in which echo packs can be taken apart are more interesting
    let fmt = [1, 2, 0, 3, 1][g.below(5)];
    {
        let cfgs = if tree == 0 { vec![Arc::new(gen_cfg(g, k.knobs))] } else { gen_cfgs(g, leaves(tree), k.knobs) };
        with_both!(tree, fmt, T, F => {
            let sc = scene::<T, F>(g, ctx, cfgs, k)?;
            sc.judge(ctx)?;
            stats(&sc, ctx, fmt);
            Ok(())
        })
    }
}

fn stats<T: Tree, F: WireFormat>(sc: &Scene<T, F>, ctx: &mut Ctx, fmt: usize) {
    let mut reported = 0;
    for i in sc.honest() {
        if let St::Done(r) = &sc.net.nodes[i].st {
            reported += r.provable_errors.len() + r.unprovable_errors.len();
            if matches!(r.outcome, SessionOutcome::Result(_)) {
                ctx.label("finished");
            }
        }
    }
    ctx.add("offences reported", reported as u64);
    if !sc.did.is_empty() && (reported > 0 || !sc.altered.is_empty() || !sc.claims.is_empty()) {
        ctx.nontrivial();
    }
    ctx.note(|| format!("format {fmt}, {}, malicious {:b}, did: {:?}, {reported} reported", sc.net.plan.describe(), sc.net.mal, sc.did));
}

const RULE: &str = "a case is a (possibly chained) generated protocol, a wire format, a schedule of single session calls and \
    parties that deviate: twisted round contents, broadcasts differing between recipients, parts left out, added or \
    undecodable, and echo packs with entries left out, added, repeated, swapped, tampered with, taken from other rounds \
    or sessions, or made of other signed parts; non-trivial if somebody deviated and an honest party reported it or \
    had to notice it";
const ASSUME: &[&str] = &[
    "the transport attributes messages to their real senders",
    "messages between honest parties are delivered once and unaltered, at most one round early",
    "structured changes of echo packs are made in the self-describing formats; the binary ones get byte-level changes",
];

pub fn facets(scale: usize) -> Vec<crate::runner::Facet> {
    vec![
        facet("lies", 4 * scale, |g, c| run_byz(g, c, BYZ, &[0])),
        facet("equivocation", 4 * scale, |g, c| {
            let knobs = Knobs { nmin: 3, nmax: 6, stages: 2, echo: 8, full: 6, ..BYZ.knobs };
            run_byz(g, c, ByzKnobs { equivocate: true, main: 6, honest: 2, knobs, ..BYZ }, &[0, 0, 1])
        }),
        facet("echo-packs", 4 * scale, |g, c| {
            let knobs = Knobs { nmin: 3, nmax: 5, stages: 2, echo: 8, full: 6, ..BYZ.knobs };
            run_byz(g, c, ByzKnobs { main: 1, echo: 8, twist: 1, honest: 1, knobs, ..BYZ }, &[0])
        }),
        facet("later-rounds", 3 * scale, |g, c| {
            let knobs = Knobs { nmin: 2, nmax: 4, stages: 5, echo: 4, full: 7, siblings: true, ..BYZ.knobs };
            run_byz(g, c, ByzKnobs { main: 1, echo: 1, twist: 8, honest: 1, knobs, ..BYZ }, &[0])
        }),
        facet("chained-lies", 3 * scale, |g, c| {
            let knobs = Knobs { nmin: 2, nmax: 4, stages: 2, full: 7, ..BYZ.knobs };
            run_byz(g, c, ByzKnobs { knobs, ..BYZ }, &[1, 2, 3, 4])
        }),
    ]
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C07", rule: RULE, assumptions: ASSUME, kinds: &["C07", "C03:local-error", "panic"], facets: facets(1000) },
        Check { id: "C09", rule: RULE, assumptions: ASSUME, kinds: &["C09", "C03:local-error", "panic"], facets: facets(1000) },
    ]
}
