//! A configurable protocol used as the workload for the checks.
//!
//! A protocol is a sequence of stages; each stage is a round of one of nine shapes (any combination of direct
//! message, echo broadcast and normal broadcast, plus one shape which defines no provable errors), with an arbitrary
//! communication topology and possibly two alternative (sibling) rounds.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
    sync::{Arc, Mutex},
};

use manul::protocol::{
    BoxedRound, CommunicationInfo, EchoRoundParticipation, EntryPoint, EvidenceError, EvidenceMessages,
    FinalizeOutcome, LocalError, NoArtifact, NoMessage, NoProtocolErrors, Protocol, ProtocolError, ProtocolMessage,
    ReceiveError, RemoteError, RequiredMessageParts, RequiredMessages, Round, RoundId, RoundInfo, RoundNum,
    TransitionInfo,
};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};

use crate::{
    params::Vid,
    util::{bits, Gen, H},
};

pub const DM: u8 = 0;
pub const EB: u8 = 1;
pub const NB: u8 = 2;
pub const KINDS: [u8; 3] = [DM, EB, NB];
/// Shape 8: a normal broadcast only, and no provable errors.
pub const SHAPES: u8 = 9;

pub fn shape_has(shape: u8, kind: u8) -> bool {
    if shape == 8 {
        kind == NB
    } else {
        shape & (1 << kind) != 0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Part {
    pub kind: u8,
    pub p: u8,
    pub stage: u8,
    pub alt: u8,
    pub from: u16,
    pub to: u16,
    pub tag: u64,
    pub data: u64,
    pub fresh: u64,
    pub link: u64,
    pub folds: Vec<(u8, u64)>,
    pub flags: u8,
    pub blob: Vec<u8>,
}
impl Part {
    pub fn digest(&self) -> u64 {
        let mut h = H::new("part")
            .b(&[self.kind, self.p, self.stage, self.alt, self.flags])
            .u(self.from as u64)
            .u(self.to as u64)
            .u(self.tag)
            .u(self.data)
            .u(self.fresh)
            .u(self.link)
            .b(&self.blob);
        for (s, f) in &self.folds {
            h = h.u(*s as u64).u(*f);
        }
        h.f()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Art {
    pub to: u16,
    pub secret: u64,
    pub fresh: u64,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Pay {
    pub parts: [Option<Part>; 3],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Res {
    pub p: u8,
    pub me: u16,
    pub acc: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Entry { p: u8, me: u16, sr: Vec<u8>, input: u64, draw: u64 },
    Made { p: u8, me: u16, stage: u8, alt: u8, kind: u8, to: u16, part: Part },
    Art { p: u8, me: u16, stage: u8, alt: u8, art: Art },
    Recv { p: u8, me: u16, from: u16, stage: u8, alt: u8, pay: Pay },
    /// What the round made of the message: 0 fine, 1 unprovably bad, 2 provably bad
    Judged { p: u8, me: u16, from: u16, stage: u8, alt: u8, verdict: u8 },
    Fin { p: u8, me: u16, stage: u8, alt: u8, pays: BTreeMap<u16, Pay>, arts: BTreeMap<u16, Option<Art>>, draw: u64 },
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<Ev>>>);
impl Debug for Log {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Log")
    }
}
impl Log {
    pub fn push(&self, e: Ev) {
        self.0.lock().unwrap().push(e)
    }
    pub fn get(&self) -> Vec<Ev> {
        self.0.lock().unwrap().clone()
    }
}

// ------------------------------------------------------------------------------------ configuration

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stage {
    pub shape: u8,
    /// For each party, who it sends messages to (ignored for echo rounds).
    pub adj: Vec<u16>,
    /// Senders and receivers of an echo round.
    pub s: u16,
    pub r: u16,
    /// Whether there are two alternative rounds in this stage, and which parties take the second one.
    pub sib: bool,
    pub alts: u16,
    /// Parties that return the result at the end of this stage.
    pub fin: u16,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub p: u8,
    pub ids: Vec<u16>,
    pub stages: Vec<Stage>,
    pub seed: u64,
    pub blob: usize,
    /// Provable errors ask for all parts of all previous messages of the offender
    pub extra: bool,
    /// The protocol leaves it to the library to tell the messages of different sessions apart
    pub loose: bool,
}

/// Position of a party in the protocol.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pos {
    pub p: u8,
    pub stage: u8,
    pub alt: u8,
    pub echo: bool,
}

impl Cfg {
    pub fn n(&self) -> usize {
        self.ids.len()
    }
    pub fn vid(&self, i: usize) -> Vid {
        Vid(self.ids[i])
    }
    pub fn idx(&self, v: Vid) -> Option<usize> {
        self.ids.iter().position(|x| *x == v.0)
    }
    pub fn alt(&self, stage: usize, i: usize) -> u8 {
        (self.stages[stage].sib && self.stages[stage].alts & (1 << i) != 0) as u8
    }
    /// Whether the party is still running in this stage.
    pub fn active(&self, stage: usize, i: usize) -> bool {
        self.stages[..stage].iter().all(|s| s.fin & (1 << i) == 0)
    }
    pub fn dests(&self, stage: usize, i: usize) -> u16 {
        let s = &self.stages[stage];
        let all = self.active_mask(stage);
        if all & (1 << i) == 0 {
            return 0;
        }
        let m = if shape_has(s.shape, EB) {
            if s.s & (1 << i) == 0 {
                0
            } else if s.r & (1 << i) == 0 {
                // those who only send do so to both branches
                s.r
            } else {
                s.r & self.branch(stage, i)
            }
        } else {
            s.adj[i]
        };
        m & all & !(1 << i)
    }
    /// The parties that are in the same branch as the given one.
    pub fn branch(&self, stage: usize, i: usize) -> u16 {
        (0..self.n()).filter(|j| self.alt(stage, *j) == self.alt(stage, i)).map(|j| 1 << j).sum()
    }
    pub fn active_mask(&self, stage: usize) -> u16 {
        (0..self.n()).filter(|i| self.active(stage, *i)).map(|i| 1 << i).sum()
    }
    pub fn expecting(&self, stage: usize, i: usize) -> u16 {
        (0..self.n())
            .filter(|j| {
                self.dests(stage, *j) & (1 << i) != 0
                    && self.active(stage, i)
                    && self.alt(stage, *j) == self.alt(stage, i)
            })
            .map(|j| 1 << j)
            .sum()
    }
    fn s_mask(&self, stage: usize) -> u16 {
        self.stages[stage].s & self.active_mask(stage)
    }
    fn r_mask(&self, stage: usize) -> u16 {
        self.stages[stage].r & self.active_mask(stage)
    }
    /// Parties whose echo broadcasts exist in this stage, in the branch of the given one.
    pub fn echo_senders(&self, stage: usize, i: usize) -> u16 {
        if !shape_has(self.stages[stage].shape, EB) {
            return 0;
        }
        let branch = self.branch(stage, i);
        bits(self.s_mask(stage) & branch).filter(|j| self.dests(stage, *j) & branch != 0).map(|j| 1 << j).sum()
    }
    /// Whether this party goes through an echo round after this stage.
    pub fn has_echo(&self, stage: usize, i: usize) -> bool {
        if !shape_has(self.stages[stage].shape, EB) || self.r_mask(stage) & (1 << i) == 0 {
            return false;
        }
        self.s_mask(stage) & (1 << i) == 0 || self.dests(stage, i) != 0
    }
    /// The other parties it exchanges echo packs with.
    pub fn echo_partners(&self, stage: usize, i: usize) -> u16 {
        if self.has_echo(stage, i) {
            self.r_mask(stage) & self.branch(stage, i) & !(1 << i)
        } else {
            0
        }
    }
    pub fn expecting_at(&self, pos: Pos, i: usize) -> u16 {
        if pos.echo {
            self.echo_partners(pos.stage as usize, i)
        } else {
            self.expecting(pos.stage as usize, i)
        }
    }
    pub fn dests_at(&self, pos: Pos, i: usize) -> u16 {
        if pos.echo {
            self.echo_partners(pos.stage as usize, i)
        } else {
            self.dests(pos.stage as usize, i)
        }
    }
    pub fn num(&self, stage: usize, alt: u8) -> RoundNum {
        1 + (stage as u8) * 18 + alt * 9 + self.stages[stage].shape
    }
    pub fn path(&self, i: usize) -> Vec<Pos> {
        let mut res = Vec::new();
        for k in 0..self.stages.len() {
            let pos = Pos { p: self.p, stage: k as u8, alt: self.alt(k, i), echo: false };
            res.push(pos);
            if self.has_echo(k, i) {
                res.push(Pos { echo: true, ..pos });
            }
            if self.stages[k].fin & (1 << i) != 0 {
                break;
            }
        }
        res
    }
    fn nums(&self, stage: usize) -> BTreeSet<RoundId> {
        let mut r = BTreeSet::from([RoundId::new(self.num(stage, 0))]);
        if self.stages[stage].sib {
            r.insert(RoundId::new(self.num(stage, 1)));
        }
        r
    }
    pub fn last(&self) -> usize {
        self.stages.len() - 1
    }
    pub fn may_finish(&self, stage: usize) -> bool {
        stage == self.last() || self.stages[stage].fin != 0
    }
    /// Which positions' messages a party at `q` is able to accept or cache, in the same protocol
    pub fn acceptable(&self, q: Pos, has_echo: bool, r: Pos) -> bool {
        if q.p != r.p {
            return r.p == q.p + 1 && r.stage == 0 && !r.echo && self.may_finish(q.stage as usize);
        }
        if q == r {
            return true;
        }
        let child = r.stage == q.stage + 1 && !r.echo;
        if q.echo {
            return child || (r.stage == q.stage && r.alt == q.alt && !r.echo);
        }
        let sibling = r.stage == q.stage && r.alt != q.alt && !r.echo;
        let before = if has_echo {
            r.echo && r.stage == q.stage && r.alt == q.alt
        } else {
            !r.echo && r.stage + 1 == q.stage
        };
        child || sibling || before
    }
}

pub fn decode_num(num: RoundNum) -> (usize, u8, u8) {
    let x = num - 1;
    ((x / 18) as usize, (x % 18) / 9, x % 9)
}
pub fn num_of(round_id: &RoundId) -> Option<RoundNum> {
    (1..=255u8).find(|n| round_id == n)
}

pub fn tagf(cfg: &Cfg, sr: &[u8], from: u16, stage: usize, alt: u8, kind: u8, to: u16) -> u64 {
    H::new("tag").b(if cfg.loose { &[] } else { sr }).b(&[cfg.p, stage as u8, alt, kind]).u(from as u64).u(to as u64).f()
}
/// A value all messages of a party in a session carry.
pub fn linkf(cfg: &Cfg, sr: &[u8], from: u16) -> u64 {
    H::new("link").b(sr).u(cfg.seed).u(from as u64).f()
}
pub fn dataf(acc: u64, kind: u8, to: u16) -> u64 {
    H::new("data").u(acc).b(&[kind]).u(to as u64).f()
}
/// A random value, drawn in one of the ways there are.
pub fn draw(rng: &mut impl CryptoRngCore, way: u64) -> u64 {
    let mut b = [0u8; 8];
    match way % 5 {
        0 | 1 => return rng.next_u64(),
        2 => return (rng.next_u32() as u64) << 32 | rng.next_u32() as u64,
        3 => rng.fill_bytes(&mut b),
        _ => rng.try_fill_bytes(&mut b).expect("the generator works"),
    }
    u64::from_le_bytes(b)
}
pub fn foldf(entries: &BTreeMap<u16, u64>) -> u64 {
    let mut h = H::new("fold");
    for (k, v) in entries {
        h = h.u(*k as u64).u(*v);
    }
    h.f()
}
pub fn acc0(cfg: &Cfg, sr: &[u8], me: u16, input: u64) -> u64 {
    H::new("acc0").b(sr).u(cfg.seed).u(me as u64).u(input).b(&[cfg.p]).f()
}
pub fn acc_next(acc: u64, stage: usize, alt: u8, pays: &BTreeMap<u16, Pay>, arts: &BTreeMap<u16, Option<Art>>) -> u64 {
    let mut h = H::new("acc").u(acc).b(&[stage as u8, alt]);
    for (k, p) in pays {
        h = h.u(*k as u64);
        for part in &p.parts {
            h = h.u(part.as_ref().map(|p| p.digest()).unwrap_or(0));
        }
    }
    for (k, a) in arts {
        h = h.u(*k as u64);
        if let Some(a) = a {
            h = h.u(a.secret).u(a.fresh).u(a.to as u64);
        }
    }
    h.f()
}

// ------------------------------------------------------------------------------------ deviations

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    /// Malicious contents
    BadTag(u8),
    BadLink(u8),
    BadFold(u8),
    Unprov(u8),
    WrongTo,
    /// A different (but not recognizably wrong) content
    Alter(u8),
    /// Local errors in protocol code
    ErrEntry,
    ErrMake(u8),
    ErrRecv(u16),
    ErrFin,
    /// Finalize into a round that was not announced
    WrongNext,
    /// The round does not define how to make this part
    Hole(u8),
    /// Use other artifacts or payloads or another result in the finalization
    FlipArt,
    FlipPay,
    ForgeRes,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Twist {
    pub stage: u8,
    pub what: What,
    /// For direct messages: which destinations (party indices)
    pub to: u16,
}

pub const BUG_TEXT: &str = "deliberate-local-bug";

// ------------------------------------------------------------------------------------ the rounds

#[derive(Debug)]
pub struct Common {
    pub cfg: Arc<Cfg>,
    pub me: u16,
    pub i: usize,
    pub sr: Vec<u8>,
    pub log: Log,
    pub twists: Vec<Twist>,
}

#[derive(Clone, Debug, Default)]
pub struct State {
    pub acc: u64,
    /// For each sender: the rounds in which we got messages from it, with parts present and the link value
    hist: BTreeMap<u16, Vec<(RoundNum, u8, u64)>>,
    /// For each echo stage in which we took part as a receiver
    folds: BTreeMap<u8, u64>,
}

#[derive(Debug)]
pub struct Rnd<const S: u8> {
    pub c: Arc<Common>,
    pub stage: usize,
    pub alt: u8,
    pub st: State,
}

/// Provable errors of the rounds.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PErr<const S: u8> {
    round: RoundNum,
    bad: Bad,
    /// Additional messages to demand: parts of this round, and of previous rounds
    this: u8,
    prev: Vec<(RoundNum, u8)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    Tag(u8),
    Link(u8, RoundNum, u8),
    Fold(u8, u8),
}

/// Error contents as an attacker may make them up.
pub fn gen_error<F: manul::session::WireFormat>(g: &mut Gen, nums: &[RoundNum]) -> Vec<u8> {
    fn any(g: &mut Gen, nums: &[RoundNum]) -> RoundNum {
        if nums.is_empty() || g.chance(1, 12) {
            return g.below(256) as u8;
        }
        *g.pick(nums)
    }
    let bad = match g.below(3) {
        0 => Bad::Tag(g.below(3) as u8),
        1 => Bad::Link(g.below(3) as u8, any(g, nums), g.below(3) as u8),
        _ => Bad::Fold(g.below(3) as u8, if g.chance(1, 12) { g.below(256) } else { g.below(5) } as u8),
    };
    let mut prev = vec![];
    for _ in 0..g.below(3) {
        prev.push((any(g, nums), g.below(8) as u8));
    }
    let this = if g.chance(1, 2) { 0 } else { g.below(8) as u8 };
    crate::params::ser::<F, _>(&PErr::<7> { round: any(g, nums), bad, this, prev })
}
/// Error contents for exactly these messages.
pub fn exact_error<F: manul::session::WireFormat>(
    round: RoundNum,
    kind: u8,
    earlier: Result<(RoundNum, u8), u8>,
    this: u8,
    prev: Vec<(RoundNum, u8)>,
) -> Vec<u8> {
    let bad = match earlier {
        Ok((num, k)) => Bad::Link(kind, num, k),
        Err(stage) => Bad::Fold(kind, stage),
    };
    crate::params::ser::<F, _>(&PErr::<7> { round, bad, this, prev })
}
/// What kind of error the contents are of.
pub fn error_sort<F: manul::session::WireFormat>(b: &[u8]) -> Option<u8> {
    let e = crate::params::de::<F, PErr<7>>(b).ok()?;
    Some(match e.bad {
        Bad::Tag(_) => 0,
        Bad::Link(..) => 1,
        Bad::Fold(..) => 2,
    })
}
/// Whether these bytes are the contents of an error.
pub fn is_error<F: manul::session::WireFormat>(b: &[u8]) -> bool {
    crate::params::de::<F, PErr<7>>(b).is_ok()
}

pub trait MaybePart {
    fn part(self) -> Option<Part>;
}
impl MaybePart for Part {
    fn part(self) -> Option<Part> {
        Some(self)
    }
}
impl MaybePart for NoMessage {
    fn part(self) -> Option<Part> {
        None
    }
}
pub trait MaybeArt: Sized {
    fn art(self) -> Option<Art>;
}
impl MaybeArt for Art {
    fn art(self) -> Option<Art> {
        Some(self)
    }
}
impl MaybeArt for NoArtifact {
    fn art(self) -> Option<Art> {
        None
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct GenProto;

impl Protocol<Vid> for GenProto {
    type Result = Res;
    type SharedData = Arc<Cfg>;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Vid, Self>> {
        let num = num_of(round_id)?;
        if num > 1 + 7 * 18 + 17 {
            return None;
        }
        Some(match decode_num(num).2 {
            0 => RoundInfo::new::<Rnd<0>>(),
            1 => RoundInfo::new::<Rnd<1>>(),
            2 => RoundInfo::new::<Rnd<2>>(),
            3 => RoundInfo::new::<Rnd<3>>(),
            4 => RoundInfo::new::<Rnd<4>>(),
            5 => RoundInfo::new::<Rnd<5>>(),
            6 => RoundInfo::new::<Rnd<6>>(),
            7 => RoundInfo::new::<Rnd<7>>(),
            _ => RoundInfo::new::<Rnd<8>>(),
        })
    }
}

pub fn make_round(c: Arc<Common>, stage: usize, alt: u8, st: State) -> BoxedRound<Vid, GenProto> {
    let hole = c.twists.iter().find_map(|t| match t.what {
        What::Hole(k) if t.stage as usize == stage => Some(k),
        _ => None,
    });
    if let Some(k) = hole {
        return crate::misuse::hole(c, stage, alt, st, k);
    }
    match c.cfg.stages[stage].shape {
        0 => BoxedRound::new(Rnd::<0> { c, stage, alt, st }),
        1 => BoxedRound::new(Rnd::<1> { c, stage, alt, st }),
        2 => BoxedRound::new(Rnd::<2> { c, stage, alt, st }),
        3 => BoxedRound::new(Rnd::<3> { c, stage, alt, st }),
        4 => BoxedRound::new(Rnd::<4> { c, stage, alt, st }),
        5 => BoxedRound::new(Rnd::<5> { c, stage, alt, st }),
        6 => BoxedRound::new(Rnd::<6> { c, stage, alt, st }),
        7 => BoxedRound::new(Rnd::<7> { c, stage, alt, st }),
        _ => BoxedRound::new(Rnd::<8> { c, stage, alt, st }),
    }
}

pub enum Verdict {
    Fine,
    Unprov(String),
    Bad(VBad),
}
pub struct VBad {
    bad: Bad,
    this: u8,
    prev: Vec<(RoundNum, u8)>,
}

impl<const S: u8> Rnd<S> {
    fn ids(&self, mask: u16) -> BTreeSet<Vid> {
        bits(mask).map(|i| self.c.cfg.vid(i)).collect()
    }

    pub fn tinfo(&self) -> TransitionInfo {
        let cfg = &self.c.cfg;
        let id = RoundId::new(cfg.num(self.stage, self.alt));
        let mut siblings = cfg.nums(self.stage);
        siblings.remove(&id);
        let children = if self.stage < cfg.last() { cfg.nums(self.stage + 1) } else { BTreeSet::new() };
        // some of it is added later
        let later = |set: &BTreeSet<RoundId>, bit: u64| -> (BTreeSet<RoundId>, BTreeSet<RoundNum>) {
            let (now, later): (Vec<_>, Vec<_>) =
                set.iter().cloned().enumerate().partition(|(i, _)| cfg.seed & (1 << (bit + *i as u64)) == 0);
            (now.into_iter().map(|x| x.1).collect(), later.iter().filter_map(|x| num_of(&x.1)).collect())
        };
        let (siblings, more_siblings) = later(&siblings, 0);
        let (children, more_children) = later(&children, 2);
        let mut info = TransitionInfo {
            id,
            parents: if self.stage > 0 { cfg.nums(self.stage - 1) } else { BTreeSet::new() },
            siblings,
            children,
            may_produce_result: cfg.may_finish(self.stage),
        };
        if cfg.seed & 16 == 0 {
            info = info.with_siblings(more_siblings).with_children(more_children);
        } else {
            info = info.with_children(more_children).with_siblings(more_siblings);
        }
        info
    }

    pub fn cinfo(&self) -> CommunicationInfo<Vid> {
        let cfg = &self.c.cfg;
        let i = self.c.i;
        let echo = shape_has(cfg.stages[self.stage].shape, EB);
        let part = if echo && cfg.active(self.stage, i) {
            let (s, r) = (cfg.s_mask(self.stage) & (1 << i) != 0, cfg.r_mask(self.stage) & (1 << i) != 0);
            match (s, r) {
                (true, false) => EchoRoundParticipation::Send,
                (false, true) => EchoRoundParticipation::Receive {
                    echo_targets: self.ids(cfg.r_mask(self.stage) & cfg.branch(self.stage, i) & !(1 << i)),
                },
                _ => EchoRoundParticipation::Default,
            }
        } else {
            EchoRoundParticipation::Default
        };
        CommunicationInfo {
            message_destinations: self.ids(cfg.dests(self.stage, i)),
            expecting_messages_from: self.ids(cfg.expecting(self.stage, i)),
            echo_round_participation: part,
        }
    }

    /// A round that this one may not turn into: itself, its sibling, an earlier round, or one further on.
    pub fn wrong_next(&self, which: u16) -> BoxedRound<Vid, GenProto> {
        let cfg = &self.c.cfg;
        let mut all = vec![(self.stage, self.alt)];
        if cfg.stages[self.stage].sib {
            all.push((self.stage, 1 - self.alt));
        }
        if self.stage > 0 {
            all.push((self.stage - 1, cfg.alt(self.stage - 1, self.c.i)));
        }
        if self.stage + 2 <= cfg.last() {
            all.push((self.stage + 2, cfg.alt(self.stage + 2, self.c.i)));
        }
        let (stage, alt) = all[which as usize % all.len()];
        make_round(self.c.clone(), stage, alt, self.st.clone())
    }

    /// The part without the random value and without any deviations.
    pub fn plain(&self, kind: u8, to: u16) -> Part {
        let cfg = &self.c.cfg;
        let data = dataf(self.st.acc, kind, to);
        Part {
            kind,
            p: cfg.p,
            stage: self.stage as u8,
            alt: self.alt,
            from: self.c.me,
            to,
            tag: tagf(cfg, &self.c.sr, self.c.me, self.stage, self.alt, kind, to),
            data,
            fresh: 0,
            link: linkf(cfg, &self.c.sr, self.c.me),
            folds: self.st.folds.iter().map(|(k, v)| (*k, *v)).collect(),
            flags: 0,
            blob: (0..cfg.blob).map(|k| (data >> (k % 8)) as u8 ^ k as u8).collect(),
        }
    }

    /// The part an honest party sends.
    pub fn fresh(&self, rng: &mut impl CryptoRngCore, kind: u8, to: u16) -> Part {
        let mut part = self.plain(kind, to);
        part.fresh = draw(rng, kind as u64 + to as u64 + self.stage as u64);
        part
    }
    pub fn fresh_art(&self, rng: &mut impl CryptoRngCore, to: u16) -> Art {
        Art { to, secret: dataf(self.st.acc, 77, to), fresh: draw(rng, 1 + to as u64) }
    }
    /// Applies a deviation to a message part (for any stage).
    pub fn deviate(&self, t: &Twist, kind: u8, to: u16, part: &mut Part) -> Result<(), LocalError> {
        if kind == DM && !bits(t.to).any(|i| self.c.cfg.ids.get(i) == Some(&to)) {
            return Ok(());
        }
        match t.what {
            What::BadTag(k) if k == kind => part.tag ^= 1,
            What::BadLink(k) if k == kind => part.link ^= 1,
            What::BadFold(k) if k == kind => {
                if let Some(last) = part.folds.last_mut() {
                    last.1 ^= 1
                } else {
                    part.folds.push((200, 1))
                }
            }
            What::Unprov(k) if k == kind => part.flags |= 1,
            What::Alter(k) if k == kind => part.data ^= H::new("alter").u(t.to as u64).f(),
            What::WrongTo if kind == DM => {
                part.to ^= 1;
                part.tag = tagf(&self.c.cfg, &self.c.sr, self.c.me, self.stage, self.alt, kind, part.to);
            }
            What::ErrMake(k) if k == kind => return Err(LocalError::new(BUG_TEXT)),
            _ => {}
        }
        Ok(())
    }

    pub fn make(&self, rng: &mut impl CryptoRngCore, kind: u8, to: u16) -> Result<Part, LocalError> {
        let mut part = self.fresh(rng, kind, to);
        for t in &self.c.twists {
            if t.stage as usize == self.stage {
                self.deviate(t, kind, to, &mut part)?;
            }
        }
        self.c.log.push(Ev::Made {
            p: self.c.cfg.p,
            me: self.c.me,
            stage: self.stage as u8,
            alt: self.alt,
            kind,
            to,
            part: part.clone(),
        });
        Ok(part)
    }

    pub fn make_art(&self, rng: &mut impl CryptoRngCore, to: u16) -> Art {
        let art = self.fresh_art(rng, to);
        self.c.log.push(Ev::Art {
            p: self.c.cfg.p,
            me: self.c.me,
            stage: self.stage as u8,
            alt: self.alt,
            art: art.clone(),
        });
        art
    }

    pub fn judge(&self, from: u16, pay: &Pay) -> Result<Verdict, LocalError> {
        let v = self.examine(from, pay)?;
        let verdict = match &v {
            Verdict::Fine => 0,
            Verdict::Bad(_) if S != 8 => 2,
            _ => 1,
        };
        let (p, stage) = (self.c.cfg.p, self.stage as u8);
        self.c.log.push(Ev::Judged { p, me: self.c.me, from, stage, alt: self.alt, verdict });
        Ok(v)
    }

    fn examine(&self, from: u16, pay: &Pay) -> Result<Verdict, LocalError> {
        let c = &self.c;
        let cfg = &c.cfg;
        for t in &c.twists {
            if t.stage as usize == self.stage && t.what == What::ErrRecv(from) {
                return Err(LocalError::new(BUG_TEXT));
            }
        }
        c.log.push(Ev::Recv {
            p: cfg.p,
            me: c.me,
            from,
            stage: self.stage as u8,
            alt: self.alt,
            pay: pay.clone(),
        });
        let mut bad = None;
        let my_folds = &self.st.folds;
        for kind in [EB, NB, DM] {
            let Some(part) = &pay.parts[kind as usize] else { continue };
            if part.flags & 1 != 0 {
                return Ok(Verdict::Unprov("flagged".into()));
            }
            if kind == DM && part.to != c.me {
                return Ok(Verdict::Unprov("wrong addressee".into()));
            }
            if part.kind != kind
                || part.from != from
                || part.stage as usize != self.stage
                || part.alt != self.alt
                || part.p != cfg.p
                || part.tag != tagf(cfg, &c.sr, from, self.stage, self.alt, kind, part.to)
            {
                bad = Some(Bad::Tag(kind));
                break;
            }
        }
        // The attached parts must be genuine for the rest to be provable, so the tags come first
        for kind in [EB, NB, DM] {
            let Some(part) = &pay.parts[kind as usize] else { continue };
            if bad.is_some() {
                break;
            }
            if let Some((num, mask, link)) = self.st.hist.get(&from).and_then(|h| h.first()) {
                if *link != part.link {
                    let prev_kind = KINDS.into_iter().find(|k| mask & (1 << k) != 0).unwrap();
                    bad = Some(Bad::Link(kind, *num, prev_kind));
                    break;
                }
            }
            // Folds of the echo stages in which both of us received the broadcasts
            let mut wrong = None;
            for (j, fold) in my_folds {
                let j0 = *j as usize;
                let mine = cfg.branch(j0, self.c.i);
                let takes_part =
                    cfg.idx(Vid(from)).map(|i| mine & (1 << i) != 0 && cfg.has_echo(j0, i)).unwrap_or(false);
                if takes_part && !part.folds.contains(&(*j, *fold)) {
                    wrong = Some(*j);
                    break;
                }
            }
            if let Some(j) = wrong {
                bad = Some(Bad::Fold(kind, j));
                break;
            }
        }
        let Some(bad) = bad else { return Ok(Verdict::Fine) };
        let (mut this, mut prev) = (0, Vec::new());
        if cfg.extra {
            this = KINDS.into_iter().filter(|k| pay.parts[*k as usize].is_some()).map(|k| 1 << k).sum();
            for (num, mask, _) in self.st.hist.get(&from).into_iter().flatten() {
                prev.push((*num, *mask));
            }
        }
        Ok(Verdict::Bad(VBad { bad, this, prev }))
    }

    pub fn fin(
        self,
        rng: &mut impl CryptoRngCore,
        pays: BTreeMap<Vid, Pay>,
        arts: BTreeMap<Vid, Option<Art>>,
    ) -> Result<FinalizeOutcome<Vid, GenProto>, LocalError> {
        let c = self.c.clone();
        let cfg = c.cfg.clone();
        let mut pays: BTreeMap<u16, Pay> = pays.into_iter().map(|(k, v)| (k.0, v)).collect();
        let mut arts: BTreeMap<u16, Option<Art>> = arts.into_iter().map(|(k, v)| (k.0, v)).collect();
        for t in c.twists.iter().filter(|t| t.stage as usize == self.stage) {
            arts.values_mut().for_each(|a| flip_art(&t.what, a));
            pays.values_mut().for_each(|p| flip_pay(&t.what, p));
        }
        let draw = rng.next_u64();
        c.log.push(Ev::Fin {
            p: cfg.p,
            me: c.me,
            stage: self.stage as u8,
            alt: self.alt,
            pays: pays.clone(),
            arts: arts.clone(),
            draw,
        });
        for t in &c.twists {
            if t.stage as usize == self.stage && t.what == What::ErrFin {
                return Err(LocalError::new(BUG_TEXT));
            }
            if t.stage as usize == self.stage && t.what == What::WrongNext {
                return Ok(FinalizeOutcome::AnotherRound(self.wrong_next(t.to)));
            }
        }
        let mut st = self.st.clone();
        if cfg.has_echo(self.stage, c.i) {
            let mut entries: BTreeMap<u16, u64> = pays
                .iter()
                .filter_map(|(k, p)| p.parts[EB as usize].as_ref().map(|p| (*k, p.data)))
                .collect();
            if cfg.echo_senders(self.stage, c.i) & (1 << c.i) != 0 {
                let mut data = self.plain(EB, 0).data;
                for t in &c.twists {
                    if t.stage as usize == self.stage && t.what == What::Alter(EB) {
                        data ^= H::new("alter").u(t.to as u64).f();
                    }
                }
                entries.insert(c.me, data);
            }
            st.folds.insert(self.stage as u8, foldf(&entries));
        }
        for (k, p) in &pays {
            let mask: u8 = KINDS.into_iter().filter(|k| p.parts[*k as usize].is_some()).map(|k| 1 << k).sum();
            if let Some(part) = p.parts.iter().flatten().next() {
                st.hist.entry(*k).or_default().push((cfg.num(self.stage, self.alt), mask, part.link));
            }
        }
        st.acc = acc_next(self.st.acc, self.stage, self.alt, &pays, &arts);
        if self.stage == cfg.last() || cfg.stages[self.stage].fin & (1 << c.i) != 0 {
            let mut res = Res { p: cfg.p, me: c.me, acc: st.acc };
            for t in c.twists.iter().filter(|t| t.stage as usize == self.stage) {
                flip_res(&t.what, &mut res);
            }
            return Ok(FinalizeOutcome::Result(res));
        }
        let next = self.stage + 1;
        let alt = cfg.alt(next, c.i);
        Ok(FinalizeOutcome::AnotherRound(make_round(c, next, alt, st)))
    }
}

pub fn flip_art(what: &What, art: &mut Option<Art>) {
    if let (What::FlipArt, Some(a)) = (what, art) {
        a.secret ^= 1;
    }
}
pub fn flip_pay(what: &What, pay: &mut Pay) {
    if *what == What::FlipPay {
        if let Some(p) = pay.parts.iter_mut().flatten().next() {
            p.data ^= 1;
        }
    }
}
pub fn flip_res(what: &What, res: &mut Res) {
    if *what == What::ForgeRes {
        res.acc ^= 1;
    }
}

fn parts_of(mask: u8, turn: u8) -> Option<RequiredMessageParts> {
    let mut res: Option<RequiredMessageParts> = None;
    // (the order must not matter)
    for k in KINDS.into_iter().map(|k| (k + turn) % 3) {
        if mask & (1 << k) == 0 {
            continue;
        }
        res = Some(match (res, k) {
            (None, DM) => RequiredMessageParts::direct_message(),
            (None, EB) => RequiredMessageParts::echo_broadcast(),
            (None, _) => RequiredMessageParts::normal_broadcast(),
            (Some(r), DM) => r.and_direct_message(),
            (Some(r), EB) => r.and_echo_broadcast(),
            (Some(r), _) => r.and_normal_broadcast(),
        });
    }
    res
}

fn invalid<T>(s: &str) -> Result<T, EvidenceError> {
    Err(EvidenceError::InvalidEvidence(s.into()))
}

impl<const S: u8> PErr<S> {
    fn required(&self, round_id: &RoundId) -> RequiredMessages {
        let (kind, mut prev) = match self.bad {
            Bad::Tag(k) => (k, BTreeMap::new()),
            Bad::Link(k, num, pk) => (k, BTreeMap::from([(num, 1u8 << pk)])),
            Bad::Fold(k, _) => (k, BTreeMap::new()),
        };
        for (num, mask) in &self.prev {
            *prev.entry(*num).or_default() |= mask;
        }
        let mut echos = BTreeSet::new();
        if let Bad::Fold(_, j) = self.bad {
            // the round number of stage j is not known here without the configuration; it is stored in `prev`
            if let Some((num, _)) = self.prev.iter().find(|(num, _)| decode_num(*num).0 == j as usize) {
                echos.insert(RoundId::new(*num));
            }
        }
        // A wrong `round_id` would lead to demanding something that does not exist
        if *round_id != self.round {
            prev.insert(251, 7);
        }
        let prev: BTreeMap<RoundId, RequiredMessageParts> =
            prev.into_iter().filter_map(|(n, m)| Some((RoundId::new(n), parts_of(m, n)?))).collect();
        RequiredMessages::new(
            parts_of(self.this | (1 << kind), self.round / 18 + kind).unwrap(),
            if prev.is_empty() { None } else { Some(prev) },
            if echos.is_empty() { None } else { Some(echos) },
        )
    }
}

macro_rules! shape {
    ($s:tt, $dm:ty, $eb:ty, $nb:ty, $art:ty, { $($make:tt)* }) => {
        impl Round<Vid> for Rnd<$s> {
            type Protocol = GenProto;
            type ProtocolError = shape!(@err $s);
            type DirectMessage = $dm;
            type EchoBroadcast = $eb;
            type NormalBroadcast = $nb;
            type Payload = Pay;
            type Artifact = $art;
            fn transition_info(&self) -> TransitionInfo {
                self.tinfo()
            }
            fn communication_info(&self) -> CommunicationInfo<Vid> {
                self.cinfo()
            }
            $($make)*
            fn receive_message(
                &self,
                from: &Vid,
                m: ProtocolMessage<Vid, Self>,
            ) -> Result<Pay, ReceiveError<Vid, Self>> {
                let pay = Pay {
                    parts: [m.direct_message.part(), m.echo_broadcast.part(), m.normal_broadcast.part()],
                };
                match self.judge(from.0, &pay)? {
                    Verdict::Fine => Ok(pay),
                    Verdict::Unprov(s) => Err(ReceiveError::Unprovable(RemoteError::new(s))),
                    Verdict::Bad(bad) => shape!(@fail $s, self, from, bad),
                }
            }
            fn finalize(
                self,
                rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Vid, Pay>,
                artifacts: BTreeMap<Vid, $art>,
            ) -> Result<FinalizeOutcome<Vid, GenProto>, LocalError> {
                self.fin(rng, payloads, artifacts.into_iter().map(|(k, v)| (k, v.art())).collect())
            }
        }
        shape!(@errimpl $s);
    };
    (@err 8) => { NoProtocolErrors<Self> };
    (@err $s:tt) => { PErr<$s> };
    (@fail 8, $self:ident, $from:ident, $bad:ident) => {{
        let _ = $bad;
        Err(ReceiveError::Unprovable(RemoteError::new("bad contents")))
    }};
    (@fail $s:tt, $self:ident, $from:ident, $bad:ident) => {{
        Err(ReceiveError::Protocol($self.perr($from.0, $bad)))
    }};
    (@errimpl 8) => {};
    (@errimpl $s:tt) => {
        impl ProtocolError<Vid> for PErr<$s> {
            type Round = Rnd<$s>;
            fn description(&self) -> String {
                format!("generated error {:?}", self.bad)
            }
            fn required_messages(&self, round_id: &RoundId) -> RequiredMessages {
                self.required(round_id)
            }
            fn verify_evidence(
                &self,
                round_id: &RoundId,
                from: &Vid,
                shared_randomness: &[u8],
                shared_data: &Arc<Cfg>,
                messages: EvidenceMessages<'_, Vid, Rnd<$s>>,
            ) -> Result<(), EvidenceError> {
                verify_error(self, round_id, from, shared_randomness, shared_data, messages)
            }
        }
    };
}

macro_rules! mk {
    (dm) => {
        fn make_direct_message(&self, rng: &mut impl CryptoRngCore, to: &Vid) -> Result<(Part, Art), LocalError> {
            let art = self.make_art(rng, to.0);
            Ok((self.make(rng, DM, to.0)?, art))
        }
    };
    (eb) => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Part, LocalError> {
            self.make(rng, EB, 0)
        }
    };
    (nb) => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Part, LocalError> {
            self.make(rng, NB, 0)
        }
    };
}

shape!(0, NoMessage, NoMessage, NoMessage, NoArtifact, {});
shape!(1, Part, NoMessage, NoMessage, Art, { mk!(dm); });
shape!(2, NoMessage, Part, NoMessage, NoArtifact, { mk!(eb); });
shape!(3, Part, Part, NoMessage, Art, { mk!(dm); mk!(eb); });
shape!(4, NoMessage, NoMessage, Part, NoArtifact, { mk!(nb); });
shape!(5, Part, NoMessage, Part, Art, { mk!(dm); mk!(nb); });
shape!(6, NoMessage, Part, Part, NoArtifact, { mk!(eb); mk!(nb); });
shape!(7, Part, Part, Part, Art, { mk!(dm); mk!(eb); mk!(nb); });
shape!(8, NoMessage, NoMessage, Part, NoArtifact, { mk!(nb); });

impl<const S: u8> Rnd<S> {
    fn perr(&self, from: u16, v: VBad) -> PErr<S> {
        let cfg = &self.c.cfg;
        let mut prev = v.prev;
        if let Bad::Fold(_, j) = v.bad {
            // Needed to find out the round number; also the offender's own broadcast, if it made one
            let num = cfg.num(j as usize, cfg.alt(j as usize, self.c.i));
            let sent = cfg.idx(Vid(from)).map(|i| cfg.echo_senders(j as usize, i) & (1 << i) != 0).unwrap_or(false);
            let mask = if sent { 1 << EB } else { 0 };
            match prev.iter_mut().find(|(n, _)| *n == num) {
                Some(e) => e.1 |= mask,
                None => prev.push((num, mask)),
            }
        }
        PErr { round: cfg.num(self.stage, self.alt), bad: v.bad, this: v.this, prev }
    }
}

fn verify_error<const S: u8>(
    err: &PErr<S>,
    round_id: &RoundId,
    from: &Vid,
    sr: &[u8],
    cfg: &Arc<Cfg>,
    messages: EvidenceMessages<'_, Vid, Rnd<S>>,
) -> Result<(), EvidenceError>
where
    Rnd<S>: Round<Vid, Protocol = GenProto>,
    <Rnd<S> as Round<Vid>>::DirectMessage: MaybePart,
    <Rnd<S> as Round<Vid>>::EchoBroadcast: MaybePart,
    <Rnd<S> as Round<Vid>>::NormalBroadcast: MaybePart,
{
    let Some(num) = num_of(round_id) else { return invalid("round id") };
    if num > 144 || num == 0 {
        return invalid("round number");
    }
    let (stage, alt, shape) = decode_num(num);
    if stage >= cfg.stages.len() || cfg.stages[stage].shape != shape || S != shape || (alt == 1 && !cfg.stages[stage].sib)
    {
        return invalid("no such round");
    }
    let this = |kind: u8| -> Result<Part, EvidenceError> {
        let p = match kind {
            DM => messages.direct_message()?.part(),
            EB => messages.echo_broadcast()?.part(),
            NB => messages.normal_broadcast()?.part(),
            _ => return invalid("kind"),
        };
        p.ok_or(EvidenceError::InvalidEvidence("no part".into()))
    };
    let prev = |num: RoundNum, kind: u8| -> Result<Part, EvidenceError> {
        match kind {
            DM => messages.previous_direct_message::<Rnd<7>>(num),
            EB => messages.previous_echo_broadcast::<Rnd<7>>(num),
            NB => messages.previous_normal_broadcast::<Rnd<7>>(num),
            _ => invalid("kind"),
        }
    };
    let genuine = |part: &Part, kind: u8, stage: usize, alt: u8| {
        part.kind == kind
            && part.p == cfg.p
            && part.stage as usize == stage
            && part.alt == alt
            && part.from == from.0
            && part.tag == tagf(cfg, sr, from.0, stage, alt, kind, part.to)
    };
    // All the demanded messages must be there and be what they claim to be
    for k in KINDS {
        if err.this & (1 << k) != 0 {
            let part = this(k)?;
            if !matches!(err.bad, Bad::Tag(_)) && !genuine(&part, k, stage, alt) {
                return invalid("an attached part is not genuine");
            }
        }
    }
    for (num, mask) in &err.prev {
        if *num == 0 || *num > 144 {
            return invalid("previous round number");
        }
        let (pstage, palt, _) = decode_num(*num);
        for k in KINDS {
            if mask & (1 << k) != 0 && !genuine(&prev(*num, k)?, k, pstage, palt) {
                return invalid("an attached previous part is not genuine");
            }
        }
    }
    match err.bad {
        Bad::Tag(kind) => {
            let part = this(kind)?;
            if genuine(&part, kind, stage, alt) {
                return invalid("the tag is correct");
            }
            Ok(())
        }
        Bad::Link(kind, num, pkind) => {
            if num == 0 || num > 144 {
                return invalid("previous round number");
            }
            let (pstage, palt, _) = decode_num(num);
            let part = this(kind)?;
            let old = prev(num, pkind)?;
            if pstage >= stage || !genuine(&old, pkind, pstage, palt) {
                return invalid("the earlier message is not genuine");
            }
            if part.link == old.link {
                return invalid("the links are the same");
            }
            Ok(())
        }
        Bad::Fold(kind, j) => {
            let j = j as usize;
            let Some(i) = cfg.idx(*from) else { return invalid("unknown party") };
            if j >= stage || !cfg.has_echo(j, i) {
                return invalid("the party did not take part in the echo round");
            }
            let part = this(kind)?;
            let num = cfg.num(j, cfg.alt(j, i));
            let combined = messages.combined_echos::<Rnd<7>>(num)?;
            let senders: BTreeSet<u16> =
                bits(cfg.echo_senders(j, i) & !(1 << i)).map(|k| cfg.ids[k]).collect();
            if combined.keys().map(|k| k.0).collect::<BTreeSet<_>>() != senders {
                return invalid("the set of echoed broadcasts is wrong");
            }
            let mut entries: BTreeMap<u16, u64> = combined.iter().map(|(k, p)| (k.0, p.data)).collect();
            for (k, p) in &combined {
                if p.kind != EB || p.stage as usize != j || p.from != k.0 {
                    return invalid("not an echo broadcast of that round");
                }
            }
            if cfg.echo_senders(j, i) & (1 << i) != 0 {
                entries.insert(from.0, prev(num, EB)?.data);
            }
            if part.folds.contains(&(j as u8, foldf(&entries))) {
                return invalid("the fold is correct");
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------ the entry point

thread_local! {
    /// Shapes of the first rounds for `Entry<IDX>` (the entry round id is requested without an instance)
    pub static ENTRY_NUM: RefCell<[RoundNum; 8]> = const { RefCell::new([1; 8]) };
}

#[derive(Clone, Debug)]
pub struct Entry<const IDX: u8> {
    pub cfg: Arc<Cfg>,
    pub log: Log,
    pub twists: Vec<Twist>,
    pub input: u64,
}
impl Entry<0> {
    pub fn new(cfg: &Arc<Cfg>, log: &Log) -> Self {
        Entry { cfg: cfg.clone(), log: log.clone(), twists: Vec::new(), input: 0 }
    }
    pub fn twisted(cfg: &Arc<Cfg>, log: &Log, twists: Vec<Twist>) -> Self {
        Entry { cfg: cfg.clone(), log: log.clone(), twists, input: 0 }
    }
}
impl<const IDX: u8> EntryPoint<Vid> for Entry<IDX> {
    type Protocol = GenProto;
    fn entry_round_id() -> RoundId {
        RoundId::new(ENTRY_NUM.with(|e| e.borrow()[IDX as usize]))
    }
    fn make_round(
        self,
        rng: &mut impl CryptoRngCore,
        sr: &[u8],
        id: &Vid,
    ) -> Result<BoxedRound<Vid, GenProto>, LocalError> {
        let draw = draw(rng, self.cfg.seed);
        self.log.push(Ev::Entry { p: self.cfg.p, me: id.0, sr: sr.into(), input: self.input, draw });
        if self.twists.iter().any(|t| t.what == What::ErrEntry) {
            return Err(LocalError::new(BUG_TEXT));
        }
        let i = self.cfg.idx(*id).ok_or_else(|| LocalError::new("not a party"))?;
        let st = State { acc: acc0(&self.cfg, sr, id.0, self.input), ..State::default() };
        let alt = self.cfg.alt(0, i);
        let c = Arc::new(Common { cfg: self.cfg, me: id.0, i, sr: sr.into(), log: self.log, twists: self.twists });
        Ok(make_round(c, 0, alt, st))
    }
}

// ------------------------------------------------------------------------------------ generation

#[derive(Clone, Copy)]
pub struct Knobs {
    pub nmin: usize,
    pub nmax: usize,
    pub stages: usize,
    pub siblings: bool,
    /// probability (of 9) of siblings
    pub branch: usize,
    pub early: bool,
    /// probability (of 8) of a full topology
    pub full: usize,
    /// probability (of 8) of a shape with an echo broadcast
    pub echo: usize,
    pub extra: bool,
}
pub const KNOBS: Knobs =
    Knobs { nmin: 1, nmax: 6, stages: 4, siblings: true, branch: 3, early: true, full: 4, echo: 4, extra: true };

pub fn gen_cfg(g: &mut Gen, k: Knobs) -> Cfg {
    let n = g.range(k.nmin, k.nmax);
    let mut ids: Vec<u16> = Vec::new();
    // small and large identifiers in arbitrary order
    let spread = g.below(3);
    for i in 0..n {
        let j = g.below(n - i);
        let mut free: Vec<u16> = (0..n as u16).filter(|x| !ids.contains(&x_id(*x, spread))).collect();
        free.sort();
        ids.push(x_id(free[j], spread));
    }
    gen_cfg_for(g, ids, k)
}
pub fn gen_cfg_for(g: &mut Gen, ids: Vec<u16>, k: Knobs) -> Cfg {
    let n = ids.len();
    let m = g.range(1, k.stages);
    let mut stages: Vec<Stage> = Vec::new();
    for s in 0..m {
        stages.push(gen_stage(g, n, s, m, k));
    }
    Cfg {
        p: 0,
        ids,
        stages,
        seed: g.below(1 << 16) as u64,
        blob: [0, 3, 40, 200][g.below(4)],
        extra: k.extra && g.chance(1, 2),
        loose: g.chance(1, 2),
    }
}
fn x_id(x: u16, spread: usize) -> u16 {
    match spread {
        0 => x + 1,
        1 => 120 + 5 * x,
        _ => 1000 + 7 * x,
    }
}

pub fn gen_stage(g: &mut Gen, n: usize, s: usize, m: usize, k: Knobs) -> Stage {
    let all: u16 = ((1u32 << n) - 1) as u16;
    let echo = g.chance(k.echo, 8);
    let shape = if echo {
        [2u8, 3, 6, 7][g.below(4)]
    } else {
        [5u8, 1, 4, 8, 0][g.below(5)]
    };
    let mut st = Stage { shape, adj: vec![all; n], s: all, r: all, sib: false, alts: 0, fin: 0 };
    let full = k.full >= 8 || g.below(8) < k.full;
    if !full {
        if echo {
            // bias towards the three roles being present
            st.s = g.mask(n);
            st.r = g.mask(n);
        } else {
            match g.below(3) {
                0 => {
                    for i in 0..n {
                        st.adj[i] = g.mask(n);
                    }
                }
                1 => {
                    // some parties idle
                    let idle = g.mask(n);
                    for i in 0..n {
                        st.adj[i] = if idle & (1 << i) != 0 { 0 } else { all & !idle };
                    }
                }
                _ => {
                    // senders and receivers
                    let (s, r) = (g.mask(n), g.mask(n));
                    for i in 0..n {
                        st.adj[i] = if s & (1 << i) != 0 { r } else { 0 };
                    }
                }
            }
        }
    }
    if k.siblings && s > 0 && g.chance(k.branch, 9) {
        st.sib = true;
        st.alts = match g.below(3) {
            0 => 0,
            1 => all,
            _ => g.mask(n),
        };
    }
    if k.early && s + 1 < m && g.chance(1, 6) {
        st.fin = g.mask(n) & g.mask(n);
    }
    st
}
