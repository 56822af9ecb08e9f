//! Round extensions (C13): the same executions with deviations built into the rounds, and with the deviations made by
//! extensions.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
    sync::{Arc, Mutex},
};

use manul::{
    dev::{
        check_evidence, check_evidence_with_extension, check_evidence_with_extensions, extend_one, run_sync,
        ExecutionResult, ExtendableEntryPoint, RoundExtension,
    },
    protocol::{BoxedRound, EntryPoint, FinalizeOutcome, LocalError, NoArtifact, Protocol, Round, RoundId},
    session::{SessionOutcome, WireFormat},
};
use rand_core::CryptoRngCore;

use crate::{
    chain::*,
    drivers::gen_tight,
    ensure, fail,
    net::Plan,
    params::{ser, Bin, Fixed, Json, Signer, Vid, SP},
    proto::*,
    runner::*,
    steps::*,
    util::{rng_from, Gen},
    with_format,
};

type CaseRes = Result<(), Fail>;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C13",
        rule: "a case is a generated protocol (or a chain), a wire format, a schedule, deviations of some parties and \
               a set of extensions; it is executed twice, with the deviations built into the rounds and made by \
               extensions (all other parties being wrapped at random, with delegating extensions or none), and \
               everything observable is compared; it is non-trivial if at least one extension was called and messages \
               were exchanged",
        assumptions: &["both executions use the same randomness and the same schedule"],
        kinds: &["C13", "panic", "hang"],
        facets: vec![
            facet("delegating", 16000, |g, c| run_ext(g, c, 0, 0)),
            facet("overriding", 36000, |g, c| run_ext(g, c, 2, 0)),
            facet("recurring", 20000, |g, c| run_ext(g, c, 2, 3)),
            facet("chained", 16000, |g, c| run_ext(g, c, 1, 1)),
            facet("wrapped-chain", 12000, |g, c| run_ext(g, c, 1, 2)),
            facet("helpers", 20000, run_helpers),
        ],
    }]
}

// ------------------------------------------------------------------------------------------------ the extensions

#[derive(Clone, Debug, PartialEq, Eq)]
struct X {
    p: u8,
    me: u16,
    stage: u8,
    alt: u8,
    /// The kind of the message part made, or 3 for finalization
    kind: u8,
    to: u16,
    id: u8,
}

#[derive(Clone, Debug, Default)]
struct XOpt {
    /// Leaves which are wrapped even without extensions (the last bit: the whole tree)
    wrap: u16,
    /// Shapes with an extension that changes nothing, and those of them which override nothing
    deleg: u16,
    bare: u16,
    /// Make the messages without calling the methods of the round
    construct: bool,
    /// Shapes with another extension registered before, which has to be replaced
    decoy: u16,
    builder: bool,
    log: Arc<Mutex<Vec<X>>>,
}
thread_local! {
    static XOPT: RefCell<XOpt> = RefCell::default();
}

#[derive(Clone, Debug)]
struct Ext<const S: u8> {
    twists: Vec<Twist>,
    construct: bool,
    id: u8,
    log: Arc<Mutex<Vec<X>>>,
}
/// An extension which overrides nothing.
#[derive(Clone, Debug)]
struct Bare<const S: u8>;

impl<const S: u8> Ext<S> {
    fn note(&self, round: &Rnd<S>, kind: u8, to: u16) {
        self.log.lock().unwrap().push(X {
            p: round.c.cfg.p,
            me: round.c.me,
            stage: round.stage as u8,
            alt: round.alt,
            kind,
            to,
            id: self.id,
        });
    }
    fn deviate(&self, round: &Rnd<S>, kind: u8, to: u16, part: &mut Part) -> Result<(), LocalError> {
        for t in &self.twists {
            round.deviate(t, kind, to, part)?;
        }
        Ok(())
    }
}

trait XArt {
    fn flip(&mut self, what: &What);
}
impl XArt for Art {
    fn flip(&mut self, what: &What) {
        let mut a = Some(self.clone());
        flip_art(what, &mut a);
        *self = a.unwrap();
    }
}
impl XArt for NoArtifact {
    fn flip(&mut self, _: &What) {}
}

macro_rules! xm {
    (dm $s:tt) => {
        fn make_direct_message(
            &self,
            rng: &mut impl CryptoRngCore,
            round: &Rnd<$s>,
            to: &Vid,
        ) -> Result<(Part, Art), LocalError> {
            self.note(round, DM, to.0);
            let (mut part, art) = if self.construct {
                let art = round.fresh_art(rng, to.0);
                (round.fresh(rng, DM, to.0), art)
            } else {
                round.make_direct_message(rng, to)?
            };
            self.deviate(round, DM, to.0, &mut part)?;
            Ok((part, art))
        }
    };
    (eb $s:tt) => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Rnd<$s>) -> Result<Part, LocalError> {
            self.note(round, EB, 0);
            let mut part = if self.construct { round.fresh(rng, EB, 0) } else { round.make_echo_broadcast(rng)? };
            self.deviate(round, EB, 0, &mut part)?;
            Ok(part)
        }
    };
    (nb $s:tt) => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Rnd<$s>) -> Result<Part, LocalError> {
            self.note(round, NB, 0);
            let mut part = if self.construct { round.fresh(rng, NB, 0) } else { round.make_normal_broadcast(rng)? };
            self.deviate(round, NB, 0, &mut part)?;
            Ok(part)
        }
    };
}
macro_rules! ext {
    ($s:tt, $art:ty, $($m:tt)*) => {
        impl RoundExtension<Vid> for Ext<$s> {
            type Round = Rnd<$s>;
            $(xm!($m $s);)*
            fn finalize(
                &self,
                rng: &mut impl CryptoRngCore,
                round: Rnd<$s>,
                mut pays: BTreeMap<Vid, Pay>,
                mut arts: BTreeMap<Vid, $art>,
            ) -> Result<FinalizeOutcome<Vid, GenProto>, LocalError> {
                self.note(&round, 3, 0);
                for t in &self.twists {
                    arts.values_mut().for_each(|a| a.flip(&t.what));
                    pays.values_mut().for_each(|p| flip_pay(&t.what, p));
                    match &t.what {
                        What::ErrFin => return Err(LocalError::new(BUG_TEXT)),
                        What::WrongNext => {
                            return Ok(FinalizeOutcome::AnotherRound(round.wrong_next(t.to)));
                        }
                        _ => {}
                    }
                }
                let mut outcome = round.finalize(rng, pays, arts)?;
                if let FinalizeOutcome::Result(r) = &mut outcome {
                    self.twists.iter().for_each(|t| flip_res(&t.what, r));
                }
                Ok(outcome)
            }
        }
        impl RoundExtension<Vid> for Bare<$s> {
            type Round = Rnd<$s>;
        }
    };
}
ext!(0, NoArtifact,);
ext!(1, Art, dm);
ext!(2, NoArtifact, eb);
ext!(3, Art, dm eb);
ext!(4, NoArtifact, nb);
ext!(5, Art, dm nb);
ext!(6, NoArtifact, eb nb);
ext!(7, Art, dm eb nb);
ext!(8, NoArtifact, nb);

macro_rules! by_shape {
    ($shape:expr, $S:ident => $body:expr) => {
        match $shape {
            0 => { const $S: u8 = 0; $body }
            1 => { const $S: u8 = 1; $body }
            2 => { const $S: u8 = 2; $body }
            3 => { const $S: u8 = 3; $body }
            4 => { const $S: u8 = 4; $body }
            5 => { const $S: u8 = 5; $body }
            6 => { const $S: u8 = 6; $body }
            7 => { const $S: u8 = 7; $body }
            _ => { const $S: u8 = 8; $body }
        }
    };
}

fn register<EP: EntryPoint<Vid, Protocol = GenProto>>(
    mut ep: ExtendableEntryPoint<Vid, EP>,
    exts: &BTreeMap<u8, Vec<Twist>>,
    opt: &XOpt,
) -> ExtendableEntryPoint<Vid, EP> {
    for (shape, twists) in exts {
        by_shape!(*shape, S => {
            let ext = Ext::<S> { twists: twists.clone(), construct: opt.construct, id: 1, log: opt.log.clone() };
            if opt.decoy & (1 << shape) != 0 {
                let all = KINDS.into_iter().map(|k| Twist { stage: 0, what: What::BadTag(k), to: 0xffff });
                ep.extend(Ext::<S> { twists: all.collect(), id: 0, ..ext.clone() });
            }
            if twists.is_empty() && opt.bare & (1 << shape) != 0 {
                ep = ep.with_extension(Bare::<S>);
            } else if opt.builder {
                ep = ep.with_extension(ext);
            } else {
                ep.extend(ext);
            }
        })
    }
    ep
}

/// Whether a deviation can be made by an extension.
fn representable(w: &What) -> bool {
    !matches!(w, What::ErrEntry | What::ErrRecv(_) | What::Alter(EB))
}

/// The extensions for the deviations of a party in one protocol, and what has to stay in the rounds.
fn extensions(cfg: &Cfg, twists: &[Twist], opt: &XOpt) -> (BTreeMap<u8, Vec<Twist>>, Vec<Twist>) {
    let mut exts: BTreeMap<u8, Vec<Twist>> = BTreeMap::new();
    let mut inner = vec![];
    for t in twists {
        if !representable(&t.what) {
            inner.push(t.clone());
            continue;
        }
        let e = exts.entry(cfg.stages[t.stage as usize].shape).or_default();
        if !e.iter().any(|x| x.what == t.what) {
            e.push(t.clone());
        }
    }
    for s in 0..SHAPES {
        if opt.deleg & (1 << s) != 0 {
            exts.entry(s).or_default();
        }
    }
    (exts, inner)
}

/// An entry point with extensions.
#[derive(Clone, Debug)]
pub struct XE<const IDX: u8> {
    entry: Entry<IDX>,
    exts: BTreeMap<u8, Vec<Twist>>,
    opt: XOpt,
}
impl<const IDX: u8> Tree for XE<IDX> {
    const LEAVES: usize = 1;
    fn build(cfgs: &[Arc<Cfg>], log: &Log, twists: &[Vec<Twist>]) -> Self {
        let opt = XOPT.with(|o| o.borrow().clone());
        let (exts, inner) = extensions(&cfgs[0], twists.first().map(|t| &t[..]).unwrap_or(&[]), &opt);
        XE { entry: Entry::build(cfgs, log, &[inner]), exts, opt }
    }
    fn with_input(mut self, input: u64) -> Self {
        self.entry.input = input;
        self
    }
    fn shared(cfgs: &[Arc<Cfg>]) -> Arc<Cfg> {
        cfgs[0].clone()
    }
}
impl<const IDX: u8> EntryPoint<Vid> for XE<IDX> {
    type Protocol = GenProto;
    fn entry_round_id() -> RoundId {
        if IDX % 2 == 0 {
            ExtendableEntryPoint::<Vid, Entry<IDX>>::entry_round_id()
        } else {
            Entry::<IDX>::entry_round_id()
        }
    }
    fn make_round(
        self,
        rng: &mut impl CryptoRngCore,
        sr: &[u8],
        id: &Vid,
    ) -> Result<BoxedRound<Vid, GenProto>, LocalError> {
        if self.exts.is_empty() && self.opt.wrap & (1 << self.entry.cfg.p) == 0 {
            return self.entry.make_round(rng, sr, id);
        }
        register(ExtendableEntryPoint::new(self.entry), &self.exts, &self.opt).make_round(rng, sr, id)
    }
}

/// A whole tree made extendable.
#[derive(Clone, Debug)]
pub struct XT<T>(T, bool);
impl<T: Tree> Tree for XT<T> {
    const LEAVES: usize = T::LEAVES;
    fn build(cfgs: &[Arc<Cfg>], log: &Log, twists: &[Vec<Twist>]) -> Self {
        XT(T::build(cfgs, log, twists), XOPT.with(|o| o.borrow().wrap & (1 << 15) != 0))
    }
    fn with_input(self, input: u64) -> Self {
        XT(self.0.with_input(input), self.1)
    }
    fn shared(cfgs: &[Arc<Cfg>]) -> <Self::Protocol as Protocol<Vid>>::SharedData {
        T::shared(cfgs)
    }
}
impl<T: Tree> EntryPoint<Vid> for XT<T> {
    type Protocol = T::Protocol;
    fn entry_round_id() -> RoundId {
        ExtendableEntryPoint::<Vid, T>::entry_round_id()
    }
    fn make_round(
        self,
        rng: &mut impl CryptoRngCore,
        sr: &[u8],
        id: &Vid,
    ) -> Result<BoxedRound<Vid, T::Protocol>, LocalError> {
        if self.1 {
            ExtendableEntryPoint::new(self.0).make_round(rng, sr, id)
        } else {
            self.0.make_round(rng, sr, id)
        }
    }
}

// ------------------------------------------------------------------------------------------------ the comparison

/// A deviation in every round of one type.
fn gen_deviation(g: &mut Gen, cfg: &Cfg, errors: bool) -> Vec<Twist> {
    let shape = cfg.stages[g.below(cfg.stages.len())].shape;
    let have: Vec<u8> = KINDS.into_iter().filter(|k| shape_has(shape, *k)).collect();
    let k = if have.is_empty() { NB } else { *g.pick(&have) };
    let what = match g.below(if errors { 16 } else { 11 }) {
        0 | 1 => What::BadTag(k),
        2 => What::Unprov(k),
        3 => What::BadLink(k),
        4 => What::BadFold(k),
        5 if k != EB => What::Alter(k),
        6 if shape_has(shape, DM) => What::WrongTo,
        7 | 5 if shape_has(shape, DM) => What::FlipArt,
        8 => What::ForgeRes,
        11 => What::ErrMake(k),
        12 => What::ErrFin,
        13 => What::WrongNext,
        14 => What::ErrRecv(*g.pick(&cfg.ids)),
        15 => What::ErrEntry,
        _ => What::FlipPay,
    };
    let to = if g.chance(1, 3) { g.mask(cfg.n()) } else { 0xffff };
    let stages = cfg.stages.iter().enumerate().filter(|(_, s)| s.shape == shape);
    stages.map(|(s, _)| Twist { stage: s as u8, what: what.clone(), to }).collect()
}

/// The same deviation is not made twice in a round.
fn add_deviation(twists: &mut Vec<Twist>, new: Vec<Twist>) {
    for t in new {
        if !twists.iter().any(|x| x.stage == t.stage && x.what == t.what) {
            twists.push(t);
        }
    }
}

fn gen_opt(g: &mut Gen, dense: bool) -> XOpt {
    let deleg = if g.chance(1, 3) { 0 } else { (g.below(512) as u16) & if dense { 511 } else { g.below(512) as u16 } };
    XOpt {
        wrap: if g.chance(1, 4) { 0 } else { 0x8000 | g.mask(4) },
        deleg,
        bare: g.below(512) as u16,
        construct: g.chance(1, 3),
        decoy: if g.chance(1, 3) { g.below(512) as u16 } else { 0 },
        builder: g.chance(1, 2),
        log: Arc::default(),
    }
}

/// `sort`: 0 a single protocol, 1 the parts of a chain are wrapped, 2 a chain is wrapped, 3 a protocol in which types
/// of rounds recur
fn run_ext(g: &mut Gen, ctx: &mut Ctx, deviants: usize, sort: usize) -> CaseRes {
    let fmt = g.below(4);
    match sort {
        0 | 3 => {
            let k = Knobs { nmax: 4, stages: if sort == 3 { 6 } else { 4 }, ..KNOBS };
            let mut cfg = gen_cfg(g, k);
            if sort == 3 {
                // few different shapes
                let shapes = [*g.pick(&[1u8, 3, 5, 7]), g.below(9) as u8];
                for s in &mut cfg.stages {
                    if g.chance(3, 4) {
                        s.shape = shapes[g.below(2)];
                    }
                }
            }
            with_format!(fmt, F => compare::<T1, XE<0>, F>(g, ctx, vec![Arc::new(cfg)], deviants, true))
        }
        1 => {
            let k = Knobs { nmax: 4, stages: 2, ..KNOBS };
            if g.chance(1, 3) {
                let cfgs = gen_cfgs(g, 3, k);
                return compare::<T3R, CE<XE<0>, CE<XE<1>, XE<2>>>, Fixed>(g, ctx, cfgs, deviants, true);
            }
            let cfgs = gen_cfgs(g, 2, k);
            compare::<T2, CE<XE<0>, XE<1>>, Bin>(g, ctx, cfgs, deviants, true)
        }
        _ => {
            let k = Knobs { nmax: 4, stages: 2, ..KNOBS };
            match g.below(3) {
                0 => {
                    let cfgs = gen_cfgs(g, 2, k);
                    compare::<T2, XT<T2>, Json>(g, ctx, cfgs, deviants, false)
                }
                1 => {
                    let cfgs = gen_cfgs(g, 3, k);
                    compare::<T3L, CE<XT<T2>, XE<2>>, crate::params::Tree>(g, ctx, cfgs, 0, false)
                }
                _ => {
                    let cfgs = gen_cfgs(g, 2, k);
                    compare::<T2, XT<CE<XE<0>, XE<1>>>, Bin>(g, ctx, cfgs, deviants, true)
                }
            }
        }
    }
}

/// `A` has the deviations built in, `B` makes them by extensions (if `exts`; otherwise it is only wrapped).
fn compare<A, B, F>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>, deviants: usize, exts: bool) -> CaseRes
where
    A: Tree,
    B: Tree<Protocol = A::Protocol>,
    F: WireFormat,
{
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let xlog: Arc<Mutex<Vec<X>>> = Arc::default();
    let opts: Vec<XOpt> = (0..n).map(|_| XOpt { log: xlog.clone(), ..gen_opt(g, deviants == 0) }).collect();
    let mut twists: Vec<Vec<Vec<Twist>>> = vec![vec![vec![]; cfgs.len()]; n];
    if deviants > 0 {
        for _ in 0..g.range(1, deviants) {
            let (i, l) = (g.below(n), g.below(cfgs.len()));
            let errors = g.chance(1, 2);
            let t = gen_deviation(g, &cfgs[l], errors);
            add_deviation(&mut twists[i][l], t);
        }
    }
    let seed = g.u64();
    let len = g.below(80);
    let tape: Vec<u32> = (0..len).map(|_| g.below(1 << 16) as u32).collect();
    let sid = seed.to_be_bytes();
    let setup =
        Setup { plan: &plan, sid: &sid, seed, tape: &tape, misuse: 0, misuse_tape: &[], kind: "C13:misuse", wire: false };
    let (log_a, log_b) = (Log::default(), Log::default());
    let a = simulate::<A, F>(&setup, |i| A::build(&cfgs, &log_a, &twists[i]))?;
    let b = simulate::<B, F>(&setup, |i| {
        XOPT.with(|o| *o.borrow_mut() = opts[i].clone());
        B::build(&cfgs, &log_b, &twists[i])
    })?;
    let story = || format!("{}, deviations {twists:?}, extensions {opts:?}", plan.describe());
    if let Some(d) = differ(&a.obs, &b.obs) {
        fail!("C13:differs", "without and with extensions: {d}; {}", story());
    }
    // what the rounds themselves saw
    let (la, lb) = (log_a.get(), log_b.get());
    let seen = |log: &[Ev]| -> Vec<Ev> {
        log.iter()
            .filter(|e| match e {
                Ev::Made { .. } | Ev::Art { .. } => false,
                Ev::Fin { me, p, .. } => {
                    let i = plan.idx(Vid(*me)).unwrap();
                    !twists[i][*p as usize].iter().any(|t| matches!(t.what, What::ErrFin | What::WrongNext))
                }
                _ => true,
            })
            .cloned()
            .collect()
    };
    if let Some(d) = differ(&seen(&la), &seen(&lb)) {
        fail!("C13:rounds", "calls of the rounds without and with extensions: {d}; {}", story());
    }
    // the calls of the extensions
    let xs = xlog.lock().unwrap().clone();
    let mut calls = 0;
    for i in 0..n {
        for (l, cfg) in cfgs.iter().enumerate() {
            if !exts {
                continue;
            }
            let me = plan.vid(i).0;
            let (reg, _) = extensions(cfg, &twists[i][l], &opts[i]);
            let active = |stage: u8| {
                let s = cfg.stages[stage as usize].shape;
                exts && reg.get(&s).is_some_and(|t| !t.is_empty() || opts[i].bare & (1 << s) == 0)
            };
            let want: Vec<X> = la
                .iter()
                .filter_map(|e| match e {
                    Ev::Made { p, me: m, stage, alt, kind, to, .. } if *m == me && *p == cfg.p && active(*stage) => {
                        Some(X { p: *p, me, stage: *stage, alt: *alt, kind: *kind, to: *to, id: 1 })
                    }
                    Ev::Fin { p, me: m, stage, alt, .. } if *m == me && *p == cfg.p && active(*stage) => {
                        Some(X { p: *p, me, stage: *stage, alt: *alt, kind: 3, to: 0, id: 1 })
                    }
                    _ => None,
                })
                .collect();
            let got: Vec<X> = xs.iter().filter(|x| x.me == me && x.p == cfg.p).cloned().collect();
            calls += got.len();
            let failed = twists[i][l].iter().any(|t| matches!(t.what, What::ErrMake(_)));
            let fits = got == want || failed && got.len() == want.len() + 1 && got[..want.len()] == want;
            if !fits {
                fail!("C13:calls", "{:?}: calls of extensions: {}; {}", plan.vid(i), differ(&want, &got).unwrap(), story());
            }
        }
    }
    let mut proofs = 0;
    for (ra, rb) in a.reports.iter().zip(&b.reports) {
        let (Some(ra), Some(rb)) = (ra, rb) else { continue };
        for (v, e) in &rb.provable_errors {
            proofs += 1;
            let (va, vb) = (ra.provable_errors[v].verify(&A::shared(&cfgs)), e.verify(&B::shared(&cfgs)));
            ensure!(va.is_ok() == vb.is_ok(), "C13:evidence", "{v:?}: {va:?} without and {vb:?} with extensions; {}", story());
        }
    }
    let made = a.obs.iter().filter(|o| matches!(o, Obs::Made { .. })).count();
    if made > 0 && (calls > 0 || !exts) {
        ctx.nontrivial();
    }
    ctx.add("calls of extensions", calls as u64);
    ctx.add("messages", made as u64);
    ctx.add("evidence", proofs);
    for o in &a.obs {
        match o {
            Obs::Local { call, .. } => ctx.label(format!("local error ({})", match call {
                Call::New => "new",
                Call::Make(_) => "make_message",
                Call::AddProcessed(_) => "add_processed_message",
                Call::Finalize => "finalize_round",
                _ => "other",
            })),
            Obs::Report(r) => ctx.label(r.outcome.clone()),
            _ => {}
        }
    }
    for t in twists.iter().flatten().flatten().map(|t| &t.what) {
        let d = format!("{t:?}");
        ctx.label(format!("deviation {}", d.split('(').next().unwrap_or("")));
    }
    ctx.note(|| format!("{}, deviations {twists:?}, {calls} calls of extensions", plan.describe()));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ the helpers

type Summary = BTreeMap<Vid, (String, Option<crate::proto::Res>, BTreeMap<Vid, (String, Vec<u8>, bool)>, BTreeMap<Vid, String>)>;

fn summary<F: WireFormat>(r: &ExecutionResult<GenProto, SP<F>>, cfg: &Arc<Cfg>) -> Summary {
    r.reports
        .iter()
        .map(|(v, r)| {
            let (o, res) = match &r.outcome {
                SessionOutcome::Result(x) => ("result", Some(x.clone())),
                SessionOutcome::NotEnoughMessages => ("not enough", None),
                SessionOutcome::Terminated => ("terminated", None),
            };
            let prov = r
                .provable_errors
                .iter()
                .map(|(k, e)| (*k, (e.description().to_string(), ser::<F, _>(e), e.verify(cfg).is_ok())))
                .collect();
            let unprov = r.unprovable_errors.iter().map(|(k, e)| (*k, e.to_string())).collect();
            (*v, (o.to_string(), res, prov, unprov))
        })
        .collect()
}

fn run_helpers(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let fmt = g.below(4);
    let cfg = gen_tight(g, 1, Knobs { nmin: 1, nmax: 4, stages: 3, ..KNOBS }).remove(0);
    with_format!(fmt, F => helpers::<F>(g, ctx, cfg))
}

fn helpers<F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfg: Arc<Cfg>) -> CaseRes {
    set_entry_nums(&[cfg.clone()]);
    let plan = Plan::new(vec![cfg.clone()]);
    let n = plan.n();
    let mut twists = vec![];
    for _ in 0..g.range(1, 2) {
        let t = gen_deviation(g, &cfg, false);
        add_deviation(&mut twists, t);
    }
    twists.retain(|t| representable(&t.what));
    let opt = gen_opt(g, false);
    let (exts, _) = extensions(&cfg, &twists, &opt);
    let seed = g.u64();
    let log = Log::default();
    // sometimes another party deviates by itself
    let mut own: Vec<Twist> = Vec::new();
    let other = g.below(n);
    if other + 1 < n && g.chance(1, 4) {
        let t = gen_deviation(g, &cfg, false);
        own.extend(t.into_iter().filter(|t| representable(&t.what)));
    }
    // and the evidence is presented to somebody who knows another protocol
    let mut judge = cfg.clone();
    if g.chance(1, 5) {
        let c = Arc::make_mut(&mut judge);
        if c.stages.len() > 1 && g.chance(1, 2) {
            c.stages.pop();
        } else {
            c.p ^= 1;
        }
    }
    let entries = |bad: bool| -> Vec<(Signer, Entry<0>)> {
        (0..n)
            .map(|i| {
                let t = match i + 1 == n {
                    true if bad => twists.clone(),
                    false if i == other => own.clone(),
                    _ => vec![],
                };
                (Signer::new(plan.vid(i)), Entry::<0>::twisted(&cfg, &log, t))
            })
            .collect()
    };
    let story = || format!("{}, deviations {twists:?}, {other}: {own:?}", plan.describe());
    let target = plan.vid(n - 1);
    ensure!(
        extend_one::<SP<F>, Entry<0>>(vec![], |e| e).is_err(),
        "C13:extend-one",
        "nothing is extended without an error"
    );
    let extended = || {
        let (id, eps) = extend_one::<SP<F>, _>(entries(false), |ep| register(ep, &exts, &opt))
            .map_err(|e| Fail::new("C13:extend-one", format!("{e:?}")))?;
        ensure!(id == target, "C13:extend-one", "the modified party is {id:?} instead of {target:?}");
        ensure!(eps.len() == n, "C13:extend-one", "{} entry points instead of {n}", eps.len());
        Ok(eps)
    };
    let plain = run_sync::<_, SP<F>>(&mut rng_from(seed), entries(true));
    let ext = run_sync::<_, SP<F>>(&mut rng_from(seed), extended()?);
    let (plain, ext) = match (plain, ext) {
        (Ok(p), Ok(e)) => (summary(&p, &judge), summary(&e, &judge)),
        (Err(_), Err(_)) => {
            ctx.label("local error");
            return Ok(());
        }
        (p, e) => fail!("C13:differs", "{} without and {} with extensions; {}", p.is_ok(), e.is_ok(), story()),
    };
    ensure!(plain == ext, "C13:differs", "reports without and with extensions: {plain:?} / {ext:?}; {}", story());
    if ext.get(&target).is_none_or(|r| !r.2.is_empty()) {
        ctx.label("evidence of the modified party");
        return Ok(());
    }
    let descriptions: BTreeSet<String> =
        ext.values().filter_map(|r| r.2.get(&target)).map(|e| e.0.clone()).collect();
    let text = match (g.below(4), descriptions.first()) {
        (0, _) => String::new(),
        (1, _) | (_, None) => "something else".to_string(),
        (2, Some(d)) => d.chars().skip(d.chars().count() / 2).collect(),
        (_, Some(d)) => d.clone(),
    };
    let want = ext.iter().filter(|(v, _)| **v != target).all(|(_, r)| {
        r.2.len() == 1 && r.2.get(&target).is_some_and(|(d, _, verifies)| d.contains(&text) && *verifies)
    });
    let got = match g.below(3) {
        0 => {
            let run = run_sync::<_, SP<F>>(&mut rng_from(seed), extended()?);
            run.and_then(|r| check_evidence::<GenProto, SP<F>>(&target, r, &judge, &text))
        }
        1 if exts.len() == 1 => {
            let (shape, t) = exts.first_key_value().unwrap();
            let given = (entries(false), judge.clone());
            by_shape!(*shape, S => {
                let ext = Ext::<S> { twists: t.clone(), construct: opt.construct, id: 1, log: opt.log.clone() };
                ctx.label("single extension");
                check_evidence_with_extension::<SP<F>, _>(&mut rng_from(seed), given, ext, &text)
            })
        }
        _ => {
            let given = (entries(false), judge.clone());
            check_evidence_with_extensions::<SP<F>, _>(&mut rng_from(seed), given, |ep| register(ep, &exts, &opt), &text)
        }
    };
    ensure!(
        got.is_ok() == want,
        "C13:check-evidence",
        "the answer is {got:?} for the description {text:?} and the reports {ext:?}; {}",
        story()
    );
    ctx.label(if want { "accepted" } else { "refused" });
    ctx.label(format!("{}{}", if own.is_empty() { "one deviates" } else { "two deviate" }, if judge.p != cfg.p || judge.stages.len() != cfg.stages.len() { ", another judge" } else { "" }));
    if n > 1 && !descriptions.is_empty() {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{}, deviations {twists:?}, expected {text:?}: {want}", plan.describe()));
    Ok(())
}
