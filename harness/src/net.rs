//! Step-by-step simulation of a network of sessions, with a model of every session's bookkeeping.
//!
//! Every library call the simulation makes is chosen from the tape: which message to create, which packet in flight to
//! deliver next, which message to process, when to add the results, when to finalize. The model predicts the answers.
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Write,
    sync::Arc,
};

use manul::{
    protocol::{EntryPoint, LocalError, Protocol, RoundId},
    session::{
        CanFinalize, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId, SessionOutcome,
        SessionReport, VerifiedMessage, WireFormat,
    },
};
use rand_chacha::ChaCha8Rng;

use crate::{
    ensure, fail,
    params::{Signer, Vid, SP},
    proto::*,
    runner::{Fail, Res as CaseRes},
    util::{bits, rng_from, Gen, H},
};

/// The rounds every party is going to execute.
#[derive(Clone, Debug)]
pub struct Plan {
    pub cfgs: Vec<Arc<Cfg>>,
    pub paths: Vec<Vec<Pos>>,
}
impl Plan {
    pub fn new(cfgs: Vec<Arc<Cfg>>) -> Self {
        let n = cfgs[0].n();
        let paths = (0..n).map(|i| cfgs.iter().flat_map(|c| c.path(i)).collect()).collect();
        Plan { cfgs, paths }
    }
    pub fn n(&self) -> usize {
        self.cfgs[0].n()
    }
    pub fn cfg(&self, pos: Pos) -> &Arc<Cfg> {
        &self.cfgs[pos.p as usize]
    }
    pub fn vid(&self, i: usize) -> Vid {
        self.cfgs[0].vid(i)
    }
    pub fn idx(&self, v: Vid) -> Option<usize> {
        self.cfgs[0].idx(v)
    }
    pub fn ids(&self, mask: u16) -> BTreeSet<Vid> {
        bits(mask).map(|i| self.vid(i)).collect()
    }
    pub fn expecting(&self, pos: Pos, i: usize) -> BTreeSet<Vid> {
        self.ids(self.cfg(pos).expecting_at(pos, i))
    }
    pub fn dests(&self, pos: Pos, i: usize) -> BTreeSet<Vid> {
        self.ids(self.cfg(pos).dests_at(pos, i))
    }
    pub fn acceptable(&self, q: Pos, i: usize, r: Pos) -> bool {
        self.exists(r) && self.cfg(q).acceptable(q, self.cfg(q).has_echo(q.stage as usize, i), r)
    }
    pub fn exists(&self, r: Pos) -> bool {
        let Some(c) = self.cfgs.get(r.p as usize) else { return false };
        let Some(s) = c.stages.get(r.stage as usize) else { return false };
        (r.alt == 0 || s.sib) && (!r.echo || shape_has(s.shape, EB))
    }
    pub fn shape(&self, pos: Pos) -> u8 {
        self.cfg(pos).stages[pos.stage as usize].shape
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for c in &self.cfgs {
            let _ = write!(s, "n={} ids={:?} stages=[", c.n(), c.ids);
            for (k, st) in c.stages.iter().enumerate() {
                let _ = write!(s, "{}shape={}", if k > 0 { "; " } else { "" }, st.shape);
                if shape_has(st.shape, EB) {
                    let _ = write!(s, " s={:b} r={:b}", st.s, st.r);
                } else {
                    let _ = write!(s, " adj={:x?}", st.adj);
                }
                if st.sib {
                    let _ = write!(s, " alts={:b}", st.alts);
                }
                if st.fin != 0 {
                    let _ = write!(s, " fin={:b}", st.fin);
                }
            }
            let _ = write!(s, "] ");
        }
        s
    }
}

/// What processing a message in its round should lead to.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    Accept,
    Unprov,
    /// A provable error of this party
    Prov(Vid),
}

/// What we know about a message in flight.
#[derive(Clone, Debug)]
pub struct Desc {
    /// All three parts are signed by this party, each for the slot it is in (otherwise `None`)
    pub signer: Option<Vid>,
    /// The metadata of the three parts is the same
    pub unified: bool,
    /// All parts are for this session
    pub this_session: bool,
    /// The round of the parts, if unified
    pub rid: Option<RoundId>,
    pub expect: Expect,
    /// A message made by an honest (or shadow) session for this very recipient, and not tampered with
    pub genuine: bool,
    pub what: String,
}

pub struct Packet {
    pub from: Vid,
    pub to: usize,
    pub msg: Message<Vid>,
    pub desc: Desc,
}

type Adder<P, F> = Box<dyn FnOnce(&Session<P, SP<F>>, &mut RoundAccumulator<P, SP<F>>) -> Result<(), LocalError> + Send>;

pub struct Act<P: Protocol<Vid>, F: WireFormat> {
    pub session: Box<Session<P, SP<F>>>,
    pub accum: RoundAccumulator<P, SP<F>>,
    pub todo: Vec<Vid>,
    pub arts: Vec<Adder<P, F>>,
    pub ready: Vec<(VerifiedMessage<Vid>, Option<(Vid, Expect)>)>,
    pub inflight: Vec<(Adder<P, F>, Option<(Vid, Expect)>)>,
}

#[allow(clippy::large_enum_variant)]
pub enum St<P: Protocol<Vid>, F: WireFormat> {
    Active(Act<P, F>),
    Done(SessionReport<P, SP<F>>),
    Failed(String),
    Moving,
}

/// The model of one session.
#[derive(Default, Clone, Debug)]
pub struct Model {
    pub accepted: BTreeSet<Vid>,
    /// A processing result (good or bad) was added
    pub processed: BTreeSet<Vid>,
    /// Senders whose message was handed out for processing in this round
    pub started: BTreeSet<Vid>,
    /// Senders from whom something was delivered for this round
    pub heard: BTreeSet<Vid>,
    pub cached: BTreeMap<(Vid, RoundId), Expect>,
    pub prov: BTreeSet<Vid>,
    pub unprov: BTreeSet<Vid>,
    /// Messages cached earlier which are being processed now; their order is not known
    pub batch: BTreeMap<Vid, Expect>,
    pub batch_left: usize,
    pub must_miss: Vec<(RoundId, BTreeSet<Vid>)>,
    pub must_not_miss: Vec<(RoundId, BTreeSet<Vid>)>,
    /// Set when the session was terminated: true if due to errors
    pub ended: Option<bool>,
}
impl Model {
    pub fn banned(&self, v: &Vid) -> bool {
        self.prov.contains(v) || self.unprov.contains(v)
    }
}

pub struct Node<P: Protocol<Vid>, F: WireFormat> {
    pub i: usize,
    pub vid: Vid,
    pub rng: ChaCha8Rng,
    pub step: usize,
    pub st: St<P, F>,
    pub m: Model,
    /// Do not run this party at all
    pub off: bool,
}

pub struct Net<P: Protocol<Vid, Result = Res>, F: WireFormat> {
    pub plan: Plan,
    pub log: Log,
    pub sid: SessionId,
    pub nodes: Vec<Node<P, F>>,
    pub wires: Vec<Packet>,
    pub rids: BTreeMap<Pos, RoundId>,
    /// Inputs given to the parties
    pub inputs: Vec<u64>,
    pub style: Style,
    pub steps: usize,
    pub trace: Option<Vec<String>>,
    /// Keep a copy of all messages made (position, maker, recipient)
    pub pool: Option<Vec<(Pos, usize, usize, Message<Vid>)>>,
    pub stats: Stats,
    /// Kind used for local errors and for rejected honest messages
    pub kind_local: &'static str,
    pub kind_reject: &'static str,
    /// Parties whose sessions are not judged (they are run by the adversary)
    pub mal: u16,
    /// Verify the finalization answers and reports against the model
    pub check_model: bool,
    /// The kinds of failures that concern the property being checked; after others the simulation goes on if possible
    pub kinds: &'static [&'static str],
    pub softs: Vec<(String, String)>,
    /// The model does not describe the session any more
    pub desync: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub cached: u64,
    pub early: u64,
    pub late: u64,
    pub overtaken: u64,
    pub echo_rounds: u64,
    pub rounds: u64,
    pub delivered: u64,
    /// Messages of the next part of a chain taken in the previous one
    pub next_part: u64,
}

/// How to choose among the possible actions.
#[derive(Clone, Debug)]
pub struct Style {
    /// Parties that act only when nobody else can
    pub slow: u16,
    /// (from, to) pairs whose packets are delivered only when nothing else can be done
    pub slow_links: Vec<(usize, usize)>,
    /// Delay adding processed messages / processing / sending
    pub lazy: u8,
    /// Prefer newest packets
    pub lifo: bool,
    /// How often preferences are obeyed, out of 8
    pub strength: usize,
}
pub fn gen_style(g: &mut Gen, n: usize) -> Style {
    match g.below(6) {
        0 => Style { slow: 0, slow_links: vec![], lazy: 0, lifo: false, strength: 0 },
        1 => Style { slow: g.mask(n), slow_links: vec![], lazy: 0, lifo: false, strength: 7 },
        2 => Style { slow: 0, slow_links: vec![], lazy: 0, lifo: true, strength: 6 },
        3 => {
            let k = g.range(1, 4);
            let slow_links = (0..k).map(|_| (g.below(n), g.below(n))).collect();
            Style { slow: 0, slow_links, lazy: 0, lifo: false, strength: 8 }
        }
        4 => Style { slow: 0, slow_links: vec![], lazy: g.below(8) as u8, lifo: false, strength: 7 },
        _ => Style {
            slow: g.mask(n),
            slow_links: vec![(g.below(n), g.below(n)), (g.below(n), g.below(n))],
            lazy: g.below(8) as u8,
            lifo: g.chance(1, 2),
            strength: 5,
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Action {
    Make(usize, usize),
    Art(usize, usize),
    Deliver(usize),
    Process(usize, usize),
    Add(usize, usize),
    Finalize(usize),
}

impl<P, F> Net<P, F>
where
    P: Protocol<Vid, Result = Res>,
    F: WireFormat,
{
    pub fn new<EP>(
        plan: Plan,
        log: Log,
        sid_seed: &[u8],
        seed: u64,
        style: Style,
        mut entry: impl FnMut(usize) -> EP,
    ) -> Result<Self, Fail>
    where
        EP: EntryPoint<Vid, Protocol = P>,
    {
        let sid = SessionId::from_seed::<SP<F>>(sid_seed);
        let mut net = Net {
            log,
            sid: sid.clone(),
            nodes: Vec::new(),
            wires: Vec::new(),
            rids: BTreeMap::new(),
            inputs: vec![0; plan.n()],
            style,
            steps: 0,
            trace: None,
            pool: None,
            stats: Stats::default(),
            kind_local: "C01:local-error",
            kind_reject: "C01:rejected",
            mal: 0,
            check_model: true,
            kinds: &[],
            softs: Vec::new(),
            desync: false,
            plan,
        };
        for i in 0..net.plan.n() {
            let vid = net.plan.vid(i);
            let mut rng = rng_from(H::new("node").u(seed).u(i as u64).f());
            let session = match Session::<P, SP<F>>::new(&mut rng, sid.clone(), Signer::new(vid), entry(i)) {
                Ok(s) => s,
                Err(e) => fail!(net.kind_local, "{vid:?}: creating the session: {e:?}"),
            };
            let st = St::Moving;
            net.nodes.push(Node { i, vid, rng, step: 0, st, m: Model::default(), off: false });
            net.enter(i, Box::new(session), Vec::new())?;
        }
        Ok(net)
    }

    pub fn pos(&self, i: usize) -> Option<Pos> {
        self.plan.paths[i].get(self.nodes[i].step).copied()
    }
    pub fn active(&self, i: usize) -> bool {
        matches!(self.nodes[i].st, St::Active(_)) && !self.nodes[i].off
    }
    fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let s = f();
            t.push(s);
        }
    }
    /// A deviation that does not keep the simulation from going on.
    fn soft(&mut self, kind: &str, msg: impl FnOnce(&Self) -> String) -> CaseRes {
        let msg = msg(self);
        if self.kinds.is_empty() || self.kinds.iter().any(|k| kind.starts_with(k)) {
            return Err(Fail::new(kind, msg));
        }
        if self.softs.len() < 3 {
            self.softs.push((kind.into(), msg));
        }
        Ok(())
    }
    fn honest(&self, i: usize) -> bool {
        self.mal & (1 << i) == 0
    }

    fn enter(&mut self, i: usize, session: Box<Session<P, SP<F>>>, cached: Vec<VerifiedMessage<Vid>>) -> CaseRes {
        let pos = self.pos(i);
        let vid = self.nodes[i].vid;
        let Some(pos) = pos else {
            fail!("C01:too-long", "{vid:?} is in yet another round after the last round of its path");
        };
        let rid = session.round_id();
        match self.rids.get(&pos) {
            None => {
                if let Some((p2, _)) = self.rids.iter().find(|(_, r)| **r == rid) {
                    fail!("C12:round-ids", "rounds {p2:?} and {pos:?} have the same round id {rid:?}");
                }
                self.rids.insert(pos, rid.clone());
            }
            Some(r) => {
                ensure!(*r == rid, "C12:round-ids", "{vid:?} should be in {pos:?} ({r:?}), but is in {rid:?}")
            }
        }
        let dests = session.message_destinations().clone();
        let expected_dests = self.plan.dests(pos, i);
        ensure!(
            dests == expected_dests,
            "C02:destinations",
            "{vid:?} in {pos:?}: destinations {dests:?}, should be {expected_dests:?}"
        );
        let accum = session.make_accumulator();
        let m = &mut self.nodes[i].m;
        m.accepted.clear();
        m.processed.clear();
        m.started.clear();
        m.heard.clear();
        m.batch.clear();
        let expecting = self.plan.expecting(pos, i);
        let old = std::mem::take(&mut m.cached);
        let mut tolerated = 0;
        for ((from, r), expect) in old {
            if r == rid && !m.banned(&from) && expecting.contains(&from) {
                m.started.insert(from);
                m.heard.insert(from);
                m.batch.insert(from, expect);
            } else if r == rid && !m.banned(&from) {
                tolerated += 1;
            } else if r != rid && pos.echo && !m.banned(&from) {
                // messages for the rounds after the echo round stay cached
                m.cached.insert((from, r), expect);
            }
        }
        m.batch_left = cached.len();
        let known = m.batch.len();
        if cached.len() > known + tolerated && !self.desync {
            let n = cached.len();
            self.soft("C05:applied", |net| {
                format!("{vid:?} enters {pos:?}: {n} cached messages are applied, at most {known} of them from parties not banned; {}", net.story())
            })?;
            self.desync = true;
        }
        let m = &mut self.nodes[i].m;
        if cached.len() < m.batch.len() && !self.desync {
            let kind = if self.honest(i) { self.kind_reject } else { "mal" };
            fail!(
                kind,
                "{vid:?} enters {pos:?} with {} cached messages instead of {}: {:?}",
                cached.len(),
                self.nodes[i].m.batch.len(),
                self.nodes[i].m.batch.keys()
            );
        }
        self.stats.rounds += 1;
        if pos.echo {
            self.stats.echo_rounds += 1;
        }
        let todo: Vec<Vid> = dests.into_iter().collect();
        let ready = cached.into_iter().map(|m| (m, None)).collect();
        let mut act = Act { session, accum, todo, arts: vec![], ready, inflight: vec![] };
        // Messages of an own cached batch that the model does not consider
        if self.nodes[i].m.batch.is_empty() && !act.ready.is_empty() {
            // Should they be dropped or applied? They come from unexpected parties; process them, nothing may break.
            let _ = &mut act;
        }
        self.nodes[i].st = St::Active(act);
        self.say(|| format!("{vid:?} enters {pos:?}"));
        self.check_can_finalize(i)
    }

    /// Moves a packet between the time it was sent and its delivery: may it be delivered now?
    fn deliverable(&self, k: usize) -> bool {
        let p = &self.wires[k];
        let Some(q) = self.pos(p.to) else { return true };
        if !self.active(p.to) {
            return true;
        }
        if !p.desc.genuine {
            return true;
        }
        match p.desc.rid.as_ref().and_then(|r| self.pos_of(r)) {
            // a message for the next protocol of a chain is accepted, but not kept, if there is another round to go
            Some(r) if r.p != q.p => self.plan.acceptable(q, p.to, r) && self.next_main(p.to) == Some(r),
            Some(r) => self.plan.acceptable(q, p.to, r),
            None => true,
        }
    }
    /// The next round of the party which is not an echo round.
    fn next_main(&self, i: usize) -> Option<Pos> {
        self.plan.paths[i][self.nodes[i].step + 1..].iter().find(|p| !p.echo).copied()
    }
    pub fn pos_of(&self, rid: &RoundId) -> Option<Pos> {
        self.rids.iter().find(|(_, r)| *r == rid).map(|(p, _)| *p)
    }

    /// Whether there are messages on the way to this party that it has to receive before leaving the round.
    fn owed(&self, i: usize) -> bool {
        let Some(q) = self.pos(i) else { return false };
        if self.plan.cfg(q).stages[q.stage as usize].alts == 0 && !self.plan.cfg(q).stages[q.stage as usize].sib {
            // still, a message of the previous stage from another branch may be on its way
        }
        let next = self.plan.paths[i].get(self.nodes[i].step + 1).copied();
        // packets on the wire
        for p in &self.wires {
            if p.to != i || !p.desc.genuine {
                continue;
            }
            let Some(r) = p.desc.rid.as_ref().and_then(|r| self.pos_of(r)) else { continue };
            if r.p == q.p && self.plan.acceptable(q, i, r) && !next.map(|n| self.plan.acceptable(n, i, r)).unwrap_or(false) {
                return true;
            }
        }
        // messages not yet created by others, from another branch of this stage
        for j in 0..self.plan.n() {
            if j == i || !matches!(self.nodes[j].st, St::Active(_)) || self.nodes[j].off {
                continue;
            }
            for (s, r) in self.plan.paths[j].iter().enumerate() {
                if s < self.nodes[j].step {
                    continue;
                }
                let pending = if s == self.nodes[j].step {
                    match &self.nodes[j].st {
                        St::Active(a) => a.todo.contains(&self.nodes[i].vid),
                        _ => false,
                    }
                } else {
                    self.plan.dests(*r, j).contains(&self.nodes[i].vid)
                };
                if pending
                    && r.p == q.p
                    && self.plan.acceptable(q, i, *r)
                    && !next.map(|n| self.plan.acceptable(n, i, *r)).unwrap_or(false)
                {
                    return true;
                }
            }
        }
        false
    }

    pub fn actions(&self, wait_for_owed: bool) -> Vec<Action> {
        let mut res = Vec::new();
        for (i, node) in self.nodes.iter().enumerate() {
            if node.off {
                continue;
            }
            let St::Active(a) = &node.st else { continue };
            for k in 0..a.todo.len() {
                res.push(Action::Make(i, k));
            }
            for k in 0..a.arts.len() {
                res.push(Action::Art(i, k));
            }
            for k in 0..a.ready.len() {
                res.push(Action::Process(i, k));
            }
            for k in 0..a.inflight.len() {
                res.push(Action::Add(i, k));
            }
        }
        for k in 0..self.wires.len() {
            if self.deliverable(k) {
                res.push(Action::Deliver(k));
            }
        }
        for (i, node) in self.nodes.iter().enumerate() {
            if node.off {
                continue;
            }
            let St::Active(a) = &node.st else { continue };
            if a.todo.is_empty()
                && a.arts.is_empty()
                && node.m.batch_left == 0
                && a.session.can_finalize(&a.accum) == CanFinalize::Yes
                && (!wait_for_owed || !self.owed(i))
            {
                res.push(Action::Finalize(i));
            }
        }
        res
    }

    pub fn choose(&self, g: &mut Gen, acts: &[Action]) -> Action {
        let st = &self.style;
        if st.strength > 0 && g.below(8) < st.strength {
            let pref: Vec<Action> = acts
                .iter()
                .filter(|a| {
                    let (who, lazy) = match a {
                        Action::Make(i, _) => (*i, st.lazy & 1 != 0),
                        Action::Art(i, _) => (*i, st.lazy & 4 != 0),
                        Action::Process(i, _) => (*i, st.lazy & 2 != 0),
                        Action::Add(i, _) => (*i, st.lazy & 4 != 0),
                        Action::Finalize(i) => (*i, false),
                        Action::Deliver(k) => {
                            let p = &self.wires[*k];
                            let from = self.plan.idx(p.from).unwrap_or(99);
                            return !st.slow_links.contains(&(from, p.to)) && st.slow & (1 << p.to) == 0;
                        }
                    };
                    st.slow & (1 << who) == 0 && !lazy
                })
                .copied()
                .collect();
            if !pref.is_empty() {
                if st.lifo && g.chance(3, 4) {
                    // shrinks towards the newest
                    return pref[pref.len() - 1 - g.below(pref.len().min(3))];
                }
                return pref[g.below(pref.len())];
            }
        }
        acts[g.below(acts.len())]
    }

    pub fn perform(&mut self, act: Action) -> CaseRes {
        self.steps += 1;
        match act {
            Action::Make(i, k) => self.make(i, k),
            Action::Art(i, k) => {
                let St::Active(a) = &mut self.nodes[i].st else { unreachable!() };
                let f = a.arts.swap_remove(k);
                if let Err(e) = f(&a.session, &mut a.accum) {
                    return self.local(i, "add_artifact", e);
                }
                Ok(())
            }
            Action::Deliver(k) => {
                let p = self.wires.remove(k);
                if !self.active(p.to) {
                    return Ok(());
                }
                self.deliver(p).map(|_| ())
            }
            Action::Process(i, k) => self.process(i, k),
            Action::Add(i, k) => self.add(i, k),
            Action::Finalize(i) => self.finalize(i),
        }
    }

    fn local(&mut self, i: usize, call: &str, e: LocalError) -> CaseRes {
        let vid = self.nodes[i].vid;
        let pos = self.pos(i);
        let text = format!("{vid:?} in {pos:?}: {call} reported a local error: {e:?}");
        if self.honest(i) {
            fail!(self.kind_local, "{text}; {}", self.story());
        }
        self.nodes[i].st = St::Failed(text);
        Ok(())
    }

    pub fn story(&self) -> String {
        format!(
            "plan: {}; last steps: {}",
            self.plan.describe(),
            self.trace.as_ref().map(|t| t[t.len().saturating_sub(60)..].join(" / ")).unwrap_or_default()
        )
    }

    fn make(&mut self, i: usize, k: usize) -> CaseRes {
        let pos = self.pos(i).unwrap();
        let node = &mut self.nodes[i];
        let vid = node.vid;
        let St::Active(a) = &mut node.st else { unreachable!() };
        let to = a.todo.remove(k);
        match a.session.make_message(&mut node.rng, &to) {
            Ok((msg, artifact)) => {
                a.arts.push(Box::new(move |s, acc| s.add_artifact(acc, artifact)));
                ensure!(*msg.destination() == to, "C02:destinations", "{vid:?}: message for {to:?} is addressed wrongly");
                let rid = a.session.round_id();
                let to_i = self.plan.idx(to).unwrap();
                let desc = Desc {
                    signer: Some(vid),
                    unified: true,
                    this_session: true,
                    rid: Some(rid),
                    expect: Expect::Accept,
                    genuine: true,
                    what: format!("{pos:?} message of {vid:?}"),
                };
                if let Some(pool) = &mut self.pool {
                    pool.push((pos, i, to_i, msg.clone()));
                }
                self.say(|| format!("{vid:?} makes for {to:?}"));
                self.wires.push(Packet { from: vid, to: to_i, msg, desc });
                Ok(())
            }
            Err(e) => self.local(i, "make_message", e),
        }
    }

    /// Hands a packet to the session and compares the answer with the model. Returns true if it was taken.
    pub fn deliver(&mut self, p: Packet) -> Result<bool, Fail> {
        let i = p.to;
        let q = self.pos(i).unwrap();
        self.stats.delivered += 1;
        let expecting = self.plan.expecting(q, i);
        let r = p.desc.rid.as_ref().and_then(|r| self.pos_of(r));
        let Node { m, st, .. } = &mut self.nodes[i];
        let St::Active(a) = st else { unreachable!() };
        #[derive(PartialEq, Debug, Clone, Copy)]
        enum Out {
            Process,
            Cache,
            Error,
        }
        let current = p.desc.rid.as_ref() == Some(&a.session.round_id());
        let child_known = p.desc.rid.is_some();
        let acceptable = match r {
            Some(r) => self.plan.acceptable(q, i, r),
            None => child_known && unknown_but_acceptable(&self.plan, q, i, p.desc.rid.as_ref().unwrap()),
        };
        let was_banned = m.banned(&p.from);
        let authentic = p.desc.signer == Some(p.from) && p.desc.unified && p.desc.this_session;
        let expected = if was_banned || !authentic {
            Out::Error
        } else if current {
            if m.started.contains(&p.from) || !expecting.contains(&p.from) {
                Out::Error
            } else {
                Out::Process
            }
        } else if acceptable {
            if m.cached.contains_key(&(p.from, p.desc.rid.clone().unwrap())) {
                Out::Error
            } else {
                Out::Cache
            }
        } else {
            Out::Error
        };
        let rid_for_cache = p.desc.rid.clone();
        let res = a.session.preprocess_message(&mut a.accum, &p.from, p.msg);
        let vid = self.nodes[i].vid;
        // One of the cached messages being processed may or may not have led to a ban already
        let m = &self.nodes[i].m;
        let uncertain = m.batch_left > 0 && m.batch.get(&p.from).map(|e| *e != Expect::Accept).unwrap_or(false);
        let out = match res {
            Err(e) => return self.local(i, &format!("preprocess_message ({} from {:?})", p.desc.what, p.from), e).map(|_| false),
            Ok(PreprocessOutcome::ToProcess(vm)) => {
                let St::Active(a) = &mut self.nodes[i].st else { unreachable!() };
                a.ready.push((*vm, Some((p.from, p.desc.expect.clone()))));
                Out::Process
            }
            Ok(PreprocessOutcome::Cached) => Out::Cache,
            Ok(PreprocessOutcome::Error(_)) => Out::Error,
        };
        self.say(|| format!("{vid:?}@{q:?} gets {} from {:?}: {out:?}", p.desc.what, p.from));
        if out != expected && !(uncertain && out == Out::Error) && !self.desync {
            let text = format!(
                "{vid:?} in {q:?}: {} from {:?} should lead to {expected:?}, but the answer is {out:?}; {}",
                p.desc.what, p.from, self.story()
            );
            if !self.honest(i) {
                fail!("mal", "{text}");
            }
            let kind = if out == Out::Error {
                let of_honest = self.plan.idx(p.from).is_some_and(|j| self.honest(j));
                if p.desc.genuine && of_honest { self.kind_reject } else { "C03:rejected" }
            } else if was_banned {
                "C05:not-shut-out"
            } else if !authentic {
                "C04:accepted"
            } else if expected == Out::Error {
                // right signer and session, but the wrong time
                if current || acceptable { "C04:repeated" } else { "C04:wrong-round" }
            } else {
                "C04:misplaced"
            };
            self.soft(kind, |_| text)?;
            self.desync = true;
        }
        let m = &mut self.nodes[i].m;
        if current {
            m.heard.insert(p.from);
        }
        match out {
            Out::Process => {
                m.started.insert(p.from);
            }
            Out::Cache => {
                m.cached.insert((p.from, rid_for_cache.unwrap()), p.desc.expect);
                self.stats.cached += 1;
                if let Some(r) = r {
                    if r.p != q.p {
                        self.stats.next_part += 1;
                    }
                    if r.stage > q.stage || r.p > q.p || (r.echo && !q.echo) {
                        self.stats.early += 1;
                    } else {
                        self.stats.late += 1;
                    }
                }
            }
            Out::Error => {
                if !was_banned {
                    m.unprov.insert(p.from);
                }
            }
        }
        self.check_can_finalize(i)?;
        Ok(out != Out::Error)
    }

    fn process(&mut self, i: usize, k: usize) -> CaseRes {
        let St::Active(a) = &mut self.nodes[i].st else { unreachable!() };
        let (vm, info) = a.ready.remove(k);
        let pm = a.session.process_message(vm);
        a.inflight.push((Box::new(move |s, acc| s.add_processed_message(acc, pm)), info));
        Ok(())
    }

    fn add(&mut self, i: usize, k: usize) -> CaseRes {
        let St::Active(a) = &mut self.nodes[i].st else { unreachable!() };
        let (f, info) = a.inflight.remove(k);
        if let Err(e) = f(&a.session, &mut a.accum) {
            return self.local(i, &format!("add_processed_message ({info:?})"), e);
        }
        let m = &mut self.nodes[i].m;
        match info {
            Some((from, expect)) => m.result(from, expect),
            None => {
                m.batch_left -= 1;
                if m.batch_left == 0 {
                    for (from, expect) in std::mem::take(&mut m.batch) {
                        m.result(from, expect);
                    }
                }
            }
        }
        let vid = self.nodes[i].vid;
        self.say(|| format!("{vid:?} adds a processed message"));
        self.check_can_finalize(i)
    }

    pub fn model_can_finalize(&self, i: usize) -> CanFinalize {
        let q = self.pos(i).unwrap();
        let m = &self.nodes[i].m;
        let expecting = self.plan.expecting(q, i);
        let open: Vec<_> = expecting.iter().filter(|v| !m.accepted.contains(v)).collect();
        if open.is_empty() {
            return CanFinalize::Yes;
        }
        let hopeless =
            |v: &Vid| m.processed.contains(v) || (m.banned(v) && !(m.started.contains(v) && !m.processed.contains(v)));
        if open.into_iter().all(hopeless) {
            CanFinalize::Never
        } else {
            CanFinalize::NotYet
        }
    }

    fn check_can_finalize(&mut self, i: usize) -> CaseRes {
        if !self.check_model || self.desync || !self.honest(i) || self.nodes[i].m.batch_left > 0 {
            return Ok(());
        }
        let St::Active(a) = &self.nodes[i].st else { return Ok(()) };
        let got = a.session.can_finalize(&a.accum);
        let want = self.model_can_finalize(i);
        if got != want {
            return self.soft("C06:can-finalize", |net| {
                format!(
                    "{:?} in {:?}: can_finalize is {got:?}, should be {want:?} (model: {:?}); {}",
                    net.nodes[i].vid,
                    net.pos(i),
                    net.nodes[i].m,
                    net.story()
                )
            });
        }
        Ok(())
    }

    fn note_missing(&mut self, i: usize) {
        let q = self.pos(i).unwrap();
        let rid = self.rids[&q].clone();
        let expecting = self.plan.expecting(q, i);
        let m = &mut self.nodes[i].m;
        let silent = expecting.iter().filter(|v| !m.heard.contains(v)).copied().collect();
        m.must_miss.push((rid.clone(), silent));
        m.must_not_miss.push((rid, m.processed.clone()));
    }

    fn finalize(&mut self, i: usize) -> CaseRes {
        self.note_missing(i);
        let node = &mut self.nodes[i];
        let vid = node.vid;
        let St::Active(a) = std::mem::replace(&mut node.st, St::Moving) else { unreachable!() };
        let res = a.session.finalize_round(&mut node.rng, a.accum);
        match res {
            Err(e) => {
                self.nodes[i].st = St::Failed(String::new());
                self.local(i, "finalize_round", e)
            }
            Ok(RoundOutcome::Finished(report)) => {
                let last = self.nodes[i].step + 1 == self.plan.paths[i].len();
                self.say(|| format!("{vid:?} finishes"));
                if !last {
                    let kind = if self.honest(i) { "C01:too-short" } else { "mal" };
                    fail!(kind, "{vid:?} finished in {:?}, which is not the end of its path; {}", self.pos(i), self.story());
                }
                self.nodes[i].st = St::Done(report);
                self.check_report(i)
            }
            Ok(RoundOutcome::AnotherRound { session, cached_messages }) => {
                self.nodes[i].step += 1;
                self.enter(i, session, cached_messages)
            }
        }
    }

    /// Ends a session the way a user does.
    pub fn terminate(&mut self, i: usize, due_to_errors: bool) -> CaseRes {
        self.note_missing(i);
        let St::Active(a) = std::mem::replace(&mut self.nodes[i].st, St::Moving) else { unreachable!() };
        let res = if due_to_errors {
            a.session.terminate_due_to_errors(a.accum)
        } else {
            a.session.terminate(a.accum)
        };
        match res {
            Err(e) => {
                self.nodes[i].st = St::Failed(String::new());
                self.local(i, "terminate", e)
            }
            Ok(report) => {
                self.nodes[i].st = St::Done(report);
                self.nodes[i].m.ended = Some(due_to_errors);
                self.check_report(i)
            }
        }
    }

    fn check_report(&mut self, i: usize) -> CaseRes {
        if !self.honest(i) {
            return Ok(());
        }
        for (kind, text) in self.report_faults(i) {
            self.soft(kind, |net| format!("{:?}: {text}; {}", net.nodes[i].vid, net.story()))?;
        }
        Ok(())
    }

    fn report_faults(&self, i: usize) -> Vec<(&'static str, String)> {
        let mut out: Vec<(&'static str, String)> = Vec::new();
        let node = &self.nodes[i];
        let St::Done(rep) = &node.st else { return out };
        let m = &node.m;
        let ok = matches!(
            (&rep.outcome, m.ended),
            (SessionOutcome::Result(_), None)
                | (SessionOutcome::NotEnoughMessages, Some(true))
                | (SessionOutcome::Terminated, Some(false))
        );
        if !ok {
            out.push(("C06:outcome", format!("outcome {} (ended by us: {:?})", rep.outcome.brief(), m.ended)));
        }
        let blamed: BTreeSet<Vid> =
            rep.provable_errors.keys().chain(rep.unprovable_errors.keys()).copied().collect();
        for v in &blamed {
            let honest = self.plan.idx(*v).map(|j| self.honest(j)).unwrap_or(false);
            if honest && !m.banned(v) {
                let why = (rep.provable_errors.get(v).map(|e| e.description().to_string()), rep.unprovable_errors.get(v));
                out.push(("C08:blamed", format!("the honest {v:?} is blamed: {why:?}")));
            }
        }
        if self.desync {
            return out;
        }
        for v in &blamed {
            let may_be_banned = m.batch.get(v).map(|e| *e != Expect::Accept).unwrap_or(false);
            if !m.banned(v) && !may_be_banned {
                out.push(("C05:wrongly-recorded", format!("{v:?} is blamed for nothing")));
            }
        }
        for v in m.prov.iter().chain(&m.unprov) {
            if !blamed.contains(v) {
                out.push(("C05:not-recorded", format!("{v:?} is not reported")));
            }
        }
        for v in &m.prov {
            if !rep.provable_errors.contains_key(v) {
                out.push(("C09:not-provable", format!("there is no evidence against {v:?}")));
            }
        }
        for (v, e) in &rep.provable_errors {
            if e.guilty_party() != v {
                out.push(("C09:filed-wrongly", format!("evidence against {:?} is filed under {v:?}", e.guilty_party())));
            }
        }
        for (rid, must) in &m.must_miss {
            let got = rep.missing_messages.get(rid).cloned().unwrap_or_default();
            if !must.is_subset(&got) {
                out.push(("C06:missing", format!("{rid:?}: silent {must:?}, reported as missing {got:?}")));
            }
        }
        for (rid, not) in &m.must_not_miss {
            let got = rep.missing_messages.get(rid).cloned().unwrap_or_default();
            if !not.is_disjoint(&got) {
                out.push(("C06:missing", format!("{rid:?}: processed {not:?}, reported as missing {got:?}")));
            }
        }
        for rid in rep.missing_messages.keys() {
            if !m.must_miss.iter().any(|(r, _)| r == rid) {
                out.push(("C06:missing", format!("missing messages are reported for {rid:?}, which was not executed")));
            }
        }
        out
    }

    /// Runs everybody until nothing is left to do.
    pub fn run(&mut self, g: &mut Gen, wait_for_owed: bool) -> CaseRes {
        loop {
            let acts = self.actions(wait_for_owed);
            if acts.is_empty() {
                return Ok(());
            }
            let act = self.choose(g, &acts);
            self.perform(act)?;
            ensure!(self.steps < 200_000, "hang", "the simulation does not come to an end");
        }
    }

    /// All parties finished with the result the protocol defines.
    pub fn check_results(&self) -> CaseRes {
        let book = Book::new(&self.log.get());
        for node in &self.nodes {
            let St::Done(rep) = &node.st else {
                let stuck = match &node.st {
                    St::Active(a) => format!(
                        "stuck in {:?}, can_finalize: {:?}, model {:?}",
                        self.pos(node.i),
                        a.session.can_finalize(&a.accum),
                        node.m
                    ),
                    St::Failed(e) => e.clone(),
                    _ => "?".into(),
                };
                fail!("C01:stuck", "{:?} did not finish: {stuck}; wires: {:?}; {}", node.vid,
                    self.wires.iter().map(|w| (w.to, &w.desc.what)).collect::<Vec<_>>(), self.story());
            };
            let want = book.result(&self.plan, self.sid.as_ref(), node.i, self.inputs[node.i])?;
            match &rep.outcome {
                SessionOutcome::Result(r) => {
                    ensure!(*r == want, "C01:result", "{:?}: result {r:?}, should be {want:?}; {}", node.vid, self.story())
                }
                o => fail!("C01:result", "{:?}: outcome {}", node.vid, o.brief()),
            }
            ensure!(
                rep.provable_errors.is_empty() && rep.unprovable_errors.is_empty() && rep.missing_messages.is_empty(),
                "C01:errors",
                "{:?}: honest run with errors: {}; {}",
                node.vid,
                rep.brief(),
                self.story()
            );
        }
        Ok(())
    }
}

impl Model {
    pub fn result(&mut self, from: Vid, expect: Expect) {
        self.processed.insert(from);
        match expect {
            Expect::Accept => {
                self.accepted.insert(from);
            }
            Expect::Unprov => {
                self.unprov.insert(from);
            }
            Expect::Prov(g) => {
                self.prov.insert(g);
            }
        }
    }
}

fn unknown_but_acceptable(_plan: &Plan, _q: Pos, _i: usize, _rid: &RoundId) -> bool {
    false
}

/// Every protocol of the plan was entered once, in order, by the right party and with the right input and randomness.
pub fn check_entries<P: Protocol<Vid, Result = Res>, F: WireFormat>(net: &Net<P, F>) -> CaseRes {
    let log = net.log.get();
    let book = Book::new(&log);
    for node in &net.nodes {
        if !net.honest(node.i) {
            continue;
        }
        let done = matches!(&node.st, St::Done(r) if matches!(r.outcome, SessionOutcome::Result(_)));
        let want = if done { net.plan.cfgs.len() } else { net.plan.paths[node.i][node.step].p as usize + 1 };
        let entries: Vec<_> = log.iter().filter(|e| matches!(e, Ev::Entry { me, .. } if *me == node.vid.0)).collect();
        ensure!(
            entries.len() == want,
            "C12:entries",
            "{:?}: {} protocols were entered instead of {want}; {}",
            node.vid,
            entries.len(),
            net.story()
        );
        for (k, e) in entries.iter().enumerate() {
            let Ev::Entry { p, sr, input, .. } = e else { continue };
            let want = match k {
                0 => net.inputs[node.i],
                _ => book.results(&net.plan, net.sid.as_ref(), node.i, net.inputs[node.i], k)?.acc,
            };
            ensure!(
                *p as usize == k && *input == want && sr.as_slice() == net.sid.as_ref(),
                "C12:entry",
                "{:?}: protocol {k} is entered as {e:?}; its input should be {want}; {}",
                node.vid,
                net.story()
            );
        }
    }
    Ok(())
}

/// Everything the protocol code was asked to create, by position.
pub struct Book {
    pub made: BTreeMap<(u8, u16, u8, u8, u8, u16), Vec<Part>>,
    pub arts: BTreeMap<(u8, u16, u8, u8, u16), Vec<Art>>,
    pub log: Vec<Ev>,
}
impl Book {
    pub fn new(log: &[Ev]) -> Self {
        let mut b = Book { made: BTreeMap::new(), arts: BTreeMap::new(), log: log.to_vec() };
        for e in log {
            match e {
                Ev::Made { p, me, stage, alt, kind, to, part } => {
                    b.made.entry((*p, *me, *stage, *alt, *kind, *to)).or_default().push(part.clone())
                }
                Ev::Art { p, me, stage, alt, art } => {
                    b.arts.entry((*p, *me, *stage, *alt, art.to)).or_default().push(art.clone())
                }
                _ => {}
            }
        }
        b
    }
    /// The payload `to` has to get from `from` at this position.
    pub fn pay(&self, plan: &Plan, pos: Pos, from: u16, to: u16) -> Result<Pay, Fail> {
        let mut pay = Pay::default();
        for k in KINDS {
            if shape_has(plan.shape(pos), k) {
                let dest = if k == DM { to } else { 0 };
                match self.made.get(&(pos.p, from, pos.stage, pos.alt, k, dest)).map(|v| v.as_slice()) {
                    Some([part]) => pay.parts[k as usize] = Some(part.clone()),
                    other => fail!(
                        "C16:creations",
                        "part {k} of {pos:?} of v{from} for v{dest} was created {} times",
                        other.map(|o| o.len()).unwrap_or(0)
                    ),
                }
            }
        }
        Ok(pay)
    }
    pub fn pays(&self, plan: &Plan, pos: Pos, i: usize) -> Result<BTreeMap<u16, Pay>, Fail> {
        plan.expecting(pos, i).into_iter().map(|v| Ok((v.0, self.pay(plan, pos, v.0, plan.vid(i).0)?))).collect()
    }
    pub fn artifacts(&self, plan: &Plan, pos: Pos, i: usize) -> Result<BTreeMap<u16, Option<Art>>, Fail> {
        let me = plan.vid(i).0;
        let mut res = BTreeMap::new();
        for d in plan.dests(pos, i) {
            let art = if shape_has(plan.shape(pos), DM) {
                match self.arts.get(&(pos.p, me, pos.stage, pos.alt, d.0)).map(|v| v.as_slice()) {
                    Some([a]) => Some(a.clone()),
                    other => fail!("C16:creations", "artifact of v{me} for {d:?} at {pos:?}: {other:?}"),
                }
            } else {
                None
            };
            res.insert(d.0, art);
        }
        Ok(res)
    }
    /// The result the protocol defines for this party, from what everybody created.
    pub fn result(&self, plan: &Plan, sr: &[u8], i: usize, input: u64) -> Result<Res, Fail> {
        self.results(plan, sr, i, input, plan.cfgs.len())
    }
    /// The result of the first `k` protocols of the chain.
    pub fn results(&self, plan: &Plan, sr: &[u8], i: usize, input: u64, k: usize) -> Result<Res, Fail> {
        let me = plan.vid(i).0;
        let mut input = input;
        let mut res = None;
        for cfg in &plan.cfgs[..k] {
            let mut acc = acc0(cfg, sr, me, input);
            for pos in cfg.path(i).into_iter().filter(|p| !p.echo) {
                acc = acc_next(
                    acc,
                    pos.stage as usize,
                    pos.alt,
                    &self.pays(plan, pos, i)?,
                    &self.artifacts(plan, pos, i)?,
                );
            }
            input = acc;
            res = Some(Res { p: cfg.p, me, acc });
        }
        Ok(res.unwrap())
    }
}
