//! Local misuse and bugs in protocol code (C19).
use std::{collections::BTreeMap, sync::Arc};

use manul::{
    dev::run_sync,
    protocol::{
        BoxedRound, CommunicationInfo, FinalizeOutcome, LocalError, NoArtifact, NoMessage, NoProtocolErrors,
        ProtocolMessage, ReceiveError, Round, TransitionInfo,
    },
    session::WireFormat,
};
use rand_core::CryptoRngCore;

use crate::{
    drivers::run_broken,
    byz::gen_twist,
    chain::*,
    drivers::gen_tight,
    ensure, fail,
    net::Plan,
    params::{Signer, Vid, SP},
    proto::*,
    runner::{facet, Check, Ctx, Fail},
    steps::*,
    util::{rng_from, Gen},
    with_format, with_both,
};

type CaseRes = Result<(), Fail>;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        rule: "a case is a generated protocol (or a chain), a wire format, a schedule and either repeated calls at \
               random moments (compared with the execution without them) or one bug in the protocol code of one \
               party; it is non-trivial if a call was repeated, or if the bug was met and messages were exchanged",
        assumptions: &["all parties are honest, apart from repeated calls in which invalid messages occur as well"],
        kinds: &["C19", "panic", "hang"],
        facets: vec![
            facet("repeated", 24000, |g, c| run_repeated(g, c, false)),
            facet("repeated-chained", 12000, |g, c| run_repeated(g, c, true)),
            facet("bugs", 48000, |g, c| run_bugs(g, c, 0)),
            facet("bugs-chained", 20000, |g, c| run_bugs(g, c, 1)),
            facet("bugs-runner", 24000, |g, c| run_bugs(g, c, 2)),
            facet("bugs-drivers", 5000, |g, c| run_broken(g, c, "C19")),
        ],
    }]
}

// ------------------------------------------------------------------------------------------------ incomplete rounds

/// A round which does not define how the part of this kind is made.
#[derive(Debug)]
struct HoleRnd<const S: u8, const M: u8>(Rnd<S>);

macro_rules! hm {
    (dm) => {
        fn make_direct_message(&self, rng: &mut impl CryptoRngCore, to: &Vid) -> Result<(Part, Art), LocalError> {
            let art = self.0.make_art(rng, to.0);
            Ok((self.0.make(rng, DM, to.0)?, art))
        }
    };
    (eb) => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Part, LocalError> {
            self.0.make(rng, EB, 0)
        }
    };
    (nb) => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Part, LocalError> {
            self.0.make(rng, NB, 0)
        }
    };
}
macro_rules! hole {
    ($s:tt, $m:tt, $dm:ty, $eb:ty, $nb:ty, $art:ty, $($make:tt)*) => {
        impl Round<Vid> for HoleRnd<$s, $m> {
            type Protocol = GenProto;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = $dm;
            type EchoBroadcast = $eb;
            type NormalBroadcast = $nb;
            type Payload = Pay;
            type Artifact = $art;
            fn transition_info(&self) -> TransitionInfo {
                self.0.tinfo()
            }
            fn communication_info(&self) -> CommunicationInfo<Vid> {
                self.0.cinfo()
            }
            $(hm!($make);)*
            fn receive_message(
                &self,
                from: &Vid,
                m: ProtocolMessage<Vid, Self>,
            ) -> Result<Pay, ReceiveError<Vid, Self>> {
                let pay = Pay { parts: [m.direct_message.part(), m.echo_broadcast.part(), m.normal_broadcast.part()] };
                self.0.judge(from.0, &pay)?;
                Ok(pay)
            }
            fn finalize(
                self,
                rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Vid, Pay>,
                artifacts: BTreeMap<Vid, $art>,
            ) -> Result<FinalizeOutcome<Vid, GenProto>, LocalError> {
                self.0.fin(rng, payloads, artifacts.into_iter().map(|(k, v)| (k, v.art())).collect())
            }
        }
    };
}
hole!(1, 0, Part, NoMessage, NoMessage, Art,);
hole!(3, 0, Part, Part, NoMessage, Art, eb);
hole!(5, 0, Part, NoMessage, Part, Art, nb);
hole!(7, 0, Part, Part, Part, Art, eb nb);
hole!(2, 1, NoMessage, Part, NoMessage, NoArtifact,);
hole!(3, 1, Part, Part, NoMessage, Art, dm);
hole!(6, 1, NoMessage, Part, Part, NoArtifact, nb);
hole!(7, 1, Part, Part, Part, Art, dm nb);
hole!(4, 2, NoMessage, NoMessage, Part, NoArtifact,);
hole!(5, 2, Part, NoMessage, Part, Art, dm);
hole!(6, 2, NoMessage, Part, Part, NoArtifact, eb);
hole!(7, 2, Part, Part, Part, Art, dm eb);
hole!(8, 2, NoMessage, NoMessage, Part, NoArtifact,);

pub fn hole(c: Arc<Common>, stage: usize, alt: u8, st: State, kind: u8) -> BoxedRound<Vid, GenProto> {
    macro_rules! h {
        ($s:tt, $m:tt) => {
            BoxedRound::new(HoleRnd::<$s, $m>(Rnd::<$s> { c, stage, alt, st }))
        };
    }
    match (c.cfg.stages[stage].shape, kind) {
        (1, DM) => h!(1, 0),
        (3, DM) => h!(3, 0),
        (5, DM) => h!(5, 0),
        (7, DM) => h!(7, 0),
        (2, EB) => h!(2, 1),
        (3, EB) => h!(3, 1),
        (6, EB) => h!(6, 1),
        (7, EB) => h!(7, 1),
        (4, NB) => h!(4, 2),
        (5, NB) => h!(5, 2),
        (6, NB) => h!(6, 2),
        (7, NB) => h!(7, 2),
        (8, NB) => h!(8, 2),
        x => unreachable!("{x:?}"),
    }
}

// ------------------------------------------------------------------------------------------------ repeated calls

fn gen_tape(g: &mut Gen, max: usize) -> Vec<u32> {
    let len = g.below(max);
    (0..len).map(|_| g.below(1 << 16) as u32).collect()
}

fn run_repeated(g: &mut Gen, ctx: &mut Ctx, chained: bool) -> CaseRes {
    let fmt = g.below(4);
    let tree = if chained { g.range(1, 4) } else { 0 };
    {
        let cfgs = gen_cfgs(g, leaves(tree), Knobs { nmax: 4, stages: if chained { 2 } else { 4 }, ..KNOBS });
        with_both!(tree, fmt, T, F => repeated::<T, F>(g, ctx, cfgs))
    }
}

fn repeated<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let mut twists: Vec<Vec<Vec<Twist>>> = vec![vec![vec![]; cfgs.len()]; n];
    if g.chance(1, 2) {
        let (i, l) = (g.below(n), g.below(cfgs.len()));
        twists[i][l].push(gen_twist(g, &cfgs[l]));
    }
    let seed = g.u64();
    let tape = gen_tape(g, 80);
    let misuse_tape = gen_tape(g, 80);
    let sid = seed.to_be_bytes();
    let mut setup = Setup {
        plan: &plan,
        sid: &sid,
        seed,
        tape: &tape,
        misuse: 0,
        misuse_tape: &misuse_tape,
        kind: "C19:repeated",
        wire: false,
    };
    let (log_a, log_b) = (Log::default(), Log::default());
    let a = simulate::<T, F>(&setup, |i| T::build(&cfgs, &log_a, &twists[i]))?;
    setup.misuse = g.range(2, 7);
    let b = simulate::<T, F>(&setup, |i| T::build(&cfgs, &log_b, &twists[i]))?;
    let story = || format!("{}, deviations {twists:?}", plan.describe());
    if let Some(d) = differ(&a.obs, &b.obs) {
        fail!("C19:corrupted", "without and with refused calls: {d}; {}", story());
    }
    let fins = |log: &Log| -> Vec<Ev> { log.get().into_iter().filter(|e| matches!(e, Ev::Fin { .. })).collect() };
    if let Some(d) = differ(&fins(&log_a), &fins(&log_b)) {
        fail!("C19:corrupted", "rounds finalized without and with refused calls: {d}; {}", story());
    }
    ctx.add("repeated calls", b.misuses);
    if b.misuses > 0 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{}, {} repeated calls", plan.describe(), b.misuses));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ bugs

fn run_bugs(g: &mut Gen, ctx: &mut Ctx, sort: usize) -> CaseRes {
    let fmt = g.below(4);
    match sort {
        0 => {
            let cfg = Arc::new(gen_cfg(g, Knobs { nmax: 4, stages: 4, ..KNOBS }));
            with_format!(fmt, F => bugs::<T1, F>(g, ctx, vec![cfg], false))
        }
        1 => {
            let tree = g.range(1, 4);
            {
                let cfgs = gen_cfgs(g, leaves(tree), Knobs { nmax: 4, stages: 2, ..KNOBS });
                with_both!(tree, fmt, T, F => bugs::<T, F>(g, ctx, cfgs, false))
            }
        }
        _ => {
            let tree = g.below(2);
            {
                let cfgs = gen_tight(g, leaves(tree), Knobs { nmax: 4, stages: 3, ..KNOBS });
                with_both!(tree, fmt, T, F => bugs::<T, F>(g, ctx, cfgs, true))
            }
        }
    }
}

/// Where a bug has to come to light: in which call (for `Make` and `AddProcessed`: of these parties), in which round.
#[derive(Clone, Debug)]
pub struct Due {
    pub call: Call,
    step: usize,
    with: Vec<u16>,
    pub bug: bool,
}

/// `None` if the bug has no effect.
pub fn due(plan: &Plan, b: usize, leaf: usize, t: &Twist) -> Option<Due> {
    let path = &plan.paths[b];
    let k = path.iter().position(|p| p.p as usize == leaf && (t.what == What::ErrEntry || p.stage == t.stage))?;
    let pos = path[k];
    let dests: Vec<u16> = plan.dests(pos, b).into_iter().map(|v| v.0).collect();
    let shape = plan.shape(pos);
    let enter = |bug| {
        let (call, step) = if k == 0 { (Call::New, 0) } else { (Call::Finalize, k - 1) };
        Some(Due { call, step, with: vec![], bug })
    };
    let last = k + plan.cfg(pos).has_echo(pos.stage as usize, b) as usize;
    match t.what {
        What::ErrEntry => enter(true),
        What::ErrMake(x) | What::Hole(x) if !shape_has(shape, x) || dests.is_empty() => None,
        What::ErrMake(DM) => {
            let with: Vec<u16> =
                dests.into_iter().filter(|d| t.to & (1 << plan.idx(Vid(*d)).unwrap()) != 0).collect();
            (!with.is_empty()).then_some(Due { call: Call::Make(0), step: k, with, bug: true })
        }
        What::Hole(DM) => Some(Due { call: Call::Make(0), step: k, with: dests, bug: false }),
        What::ErrMake(_) => enter(true),
        What::Hole(_) => enter(false),
        What::ErrRecv(v) => plan
            .expecting(pos, b)
            .contains(&Vid(v))
            .then_some(Due { call: Call::AddProcessed(None), step: k, with: vec![v], bug: true }),
        What::ErrFin => Some(Due { call: Call::Finalize, step: last, with: vec![], bug: true }),
        What::WrongNext => Some(Due { call: Call::Finalize, step: last, with: vec![], bug: false }),
        _ => None,
    }
}

/// A party, a part of its protocol, and a bug in it.
pub fn gen_bug(g: &mut Gen, plan: &Plan) -> (usize, usize, Twist) {
    let n = plan.n();
    let b = g.below(n);
    let leaf = g.below(plan.cfgs.len());
    let cfg = &plan.cfgs[leaf];
    let stage = g.below(cfg.stages.len());
    let have: Vec<u8> = KINDS.into_iter().filter(|k| shape_has(cfg.stages[stage].shape, *k)).collect();
    let what = match g.below(9) {
        0 => What::ErrEntry,
        1 => What::ErrFin,
        2 => What::WrongNext,
        3 | 4 => What::ErrRecv(*g.pick(&cfg.ids)),
        5 | 6 if !have.is_empty() => What::Hole(*g.pick(&have)),
        _ if !have.is_empty() => What::ErrMake(*g.pick(&have)),
        _ => What::ErrFin,
    };
    let to = if what == What::WrongNext || g.chance(1, 2) { g.mask(n) } else { 0xffff };
    (b, leaf, Twist { stage: stage as u8, what, to })
}

fn bugs<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>, runner: bool) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let (b, leaf, twist) = gen_bug(g, &plan);
    let what = twist.what.clone();
    let due = due(&plan, b, leaf, &twist);
    let mut twists: Vec<Vec<Vec<Twist>>> = vec![vec![vec![]; cfgs.len()]; n];
    twists[b][leaf].push(twist.clone());
    let seed = g.u64();
    let log = Log::default();
    let story = || format!("{}, party {b} has {twist:?} in part {leaf}", plan.describe());
    let name = format!("{what:?}");
    let name = name.split('(').next().unwrap_or("").to_string();

    if runner {
        let eps = (0..n).map(|i| (Signer::new(plan.vid(i)), T::build(&cfgs, &log, &twists[i]))).collect();
        let res = run_sync::<T, SP<F>>(&mut rng_from(seed), eps);
        match (&res, &due) {
            (Ok(r), None) => ensure!(
                r.reports.values().all(|r| r.provable_errors.is_empty() && r.unprovable_errors.is_empty()),
                "C19:charged",
                "errors are recorded; {}",
                story()
            ),
            (Ok(_), Some(d)) => fail!("C19:absorbed", "the runner does not report the error ({d:?}); {}", story()),
            (Err(e), None) => fail!("C19:unexpected", "the runner reports {e:?}; {}", story()),
            (Err(e), Some(d)) => ensure!(is_bug(e) || !d.bug, "C19:other", "the runner reports {e:?} ({d:?}); {}", story()),
        }
        ctx.label(format!("{name}{}", if due.is_some() { "" } else { " (no effect)" }));
        if due.is_some() && n > 1 {
            ctx.nontrivial();
        }
        ctx.note(|| format!("{}, party {b} has {twist:?} in part {leaf}", plan.describe()));
        return Ok(());
    }

    let tape = gen_tape(g, 80);
    let sid = seed.to_be_bytes();
    let setup =
        Setup { plan: &plan, sid: &sid, seed, tape: &tape, misuse: 0, misuse_tape: &[], kind: "C19:repeated", wire: false };
    let sim = simulate::<T, F>(&setup, |i| T::build(&cfgs, &log, &twists[i]))?;
    ensure!(sim.corrupted.is_empty(), "C19:absorbed", "a round can be finalized without a message; {}", story());
    for i in 0..n {
        let locals = sim.locals(i);
        let rep = sim.rep(i);
        if let Some(r) = rep {
            ensure!(
                r.provable.is_empty() && r.unprovable.is_empty(),
                "C19:charged",
                "party {i}: errors are recorded: {:?} {:?}; {}",
                r.provable,
                r.unprovable,
                story()
            );
        }
        let due = due.as_ref().filter(|_| i == b);
        let Some(d) = due else {
            ensure!(locals.is_empty(), "C19:unexpected", "party {i}: unexpected local error: {locals:?}; {}", story());
            continue;
        };
        let fits = |(call, step, bug): &(Call, usize, bool)| {
            *step == d.step
                && *bug == d.bug
                && match (call, d.call) {
                    (Call::Make(v), Call::Make(_)) => d.with.contains(v),
                    (Call::AddProcessed(v), Call::AddProcessed(_)) => v.is_none_or(|v| d.with.contains(&v)),
                    (c, e) => *c == e,
                }
        };
        ensure!(
            locals.len() <= 1 && locals.iter().all(fits),
            "C19:wrong-call",
            "party {b}: {locals:?} instead of {d:?}; {}",
            story()
        );
        let entered = sim.obs.iter().filter(|o| matches!(o, Obs::Enter { i, .. } if *i == b)).count();
        let passed = entered > d.step + 1 || rep.is_some_and(|r| r.result.is_some());
        ensure!(!passed || locals.len() == 1 && entered <= d.step + 1, "C19:absorbed", "party {b}: {d:?} does not come to light; {}", story());
        if d.call == Call::New {
            ensure!(locals.len() == 1, "C19:absorbed", "party {b}: the session is created in spite of {d:?}; {}", story());
        }
        if locals.len() == 1 {
            ctx.label(format!("{name} in {:?}", locals[0].0).split('(').next().unwrap_or("").to_string());
            if sim.obs.iter().any(|o| matches!(o, Obs::Made { .. })) {
                ctx.nontrivial();
            }
        } else {
            ctx.label(format!("{name} not met"));
        }
    }
    if due.is_none() {
        ctx.label(format!("{name} (no effect)"));
    }
    ctx.note(|| format!("{}, party {b} has {twist:?} in part {leaf}", plan.describe()));
    Ok(())
}
