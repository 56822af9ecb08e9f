//! A plain simulation which records everything observable, for comparing executions with each other.
use std::{collections::BTreeMap, fmt::Debug};

use manul::{
    digest::Digest,
    protocol::{LocalError, Protocol, RoundId},
    session::{
        CanFinalize, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId, SessionOutcome,
        SessionReport, VerifiedMessage, WireFormat,
    },
};
use rand_chacha::ChaCha8Rng;
use sha3::Sha3_256;

use crate::{
    chain::Tree,
    trips::rewire,
    ensure, fail,
    net::Plan,
    params::{ser, Signer, Vid, SP},
    proto::{Pos, Res, BUG_TEXT},
    runner::Fail,
    util::{rng_from, Gen},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Call {
    New,
    Make(u16),
    AddArtifact(u16),
    Preprocess(u16),
    /// The sender is not known for messages which were cached
    AddProcessed(Option<u16>),
    Finalize,
    Terminate,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    /// A new round is entered
    Enter { i: usize, id: RoundId, dests: Vec<Vid> },
    Made { i: usize, to: Vid, msg: Vec<u8> },
    /// 0: to process, 1: cached, 2: error
    Pre { i: usize, from: Vid, what: u8 },
    Added { i: usize, from: Option<Vid> },
    /// A local error: in which call, in which round of the party (index of its path; 0 also before the first round),
    /// whether it is that of the protocol code
    Local { i: usize, call: Call, step: usize, bug: bool },
    Report(Rep),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rep {
    pub i: usize,
    pub outcome: String,
    pub result: Option<Res>,
    pub provable: BTreeMap<Vid, (String, Vec<u8>)>,
    pub unprovable: BTreeMap<Vid, String>,
    pub missing: Vec<(RoundId, Vec<Vid>)>,
}

pub struct Live<P: Protocol<Vid>, F: WireFormat, D: Digest + 'static = Sha3_256> {
    session: Session<P, SP<F, D>>,
    accum: RoundAccumulator<P, SP<F, D>>,
    todo: Vec<Vid>,
    sent: Vec<Vid>,
    got: Vec<VerifiedMessage<Vid>>,
    step: usize,
    stuck: bool,
}

pub struct Sim<P: Protocol<Vid>, F: WireFormat, D: Digest + 'static = Sha3_256> {
    pub plan: Plan,
    nodes: Vec<Option<Live<P, F, D>>>,
    rngs: Vec<ChaCha8Rng>,
    wires: Vec<(usize, usize, Pos, Message<Vid>)>,
    pub obs: Vec<Obs>,
    pub reports: Vec<Option<SessionReport<P, SP<F, D>>>>,
    /// Parties which could go on although a message could not be added
    pub corrupted: Vec<usize>,
    /// Calls made a second time, each of which was refused
    pub misuses: u64,
}

pub struct Setup<'a> {
    pub plan: &'a Plan,
    pub sid: &'a [u8],
    pub seed: u64,
    /// The schedule
    pub tape: &'a [u32],
    /// How often calls are repeated which must not be (of 8), and the source of these choices
    pub misuse: usize,
    pub misuse_tape: &'a [u32],
    pub kind: &'static str,
    /// Everything is serialized and deserialized on its way
    pub wire: bool,
}

pub fn is_bug(e: &LocalError) -> bool {
    e.to_string().contains(BUG_TEXT)
}

pub fn simulate<T, F>(s: &Setup, build: impl FnMut(usize) -> T) -> Result<Sim<T::Protocol, F>, Fail>
where
    T: Tree,
    F: WireFormat,
{
    simulate_with::<T, F, Sha3_256>(s, build)
}

pub fn simulate_with<T, F, D>(s: &Setup, mut build: impl FnMut(usize) -> T) -> Result<Sim<T::Protocol, F, D>, Fail>
where
    T: Tree,
    F: WireFormat,
    D: Digest + 'static,
{
    let n = s.plan.n();
    let mut g = Gen::replay(s.tape.to_vec());
    let mut mg = Gen::replay(s.misuse_tape.to_vec());
    let mut sim = Sim::<T::Protocol, F, D> {
        plan: s.plan.clone(),
        nodes: vec![],
        rngs: vec![],
        wires: vec![],
        obs: vec![],
        reports: (0..n).map(|_| None).collect(),
        misuses: 0,
        corrupted: vec![],
    };
    let sid = SessionId::from_seed::<SP<F, D>>(s.sid);
    for i in 0..n {
        let mut rng = rng_from(s.seed ^ (i as u64 + 1) << 20);
        let ep = build(i);
        let sid = if s.wire { rewire(&sid, i, "session ID")? } else { sid.clone() };
        let res = Session::<T::Protocol, SP<F, D>>::new(&mut rng, sid, Signer::new(s.plan.vid(i)), ep);
        sim.rngs.push(rng);
        sim.nodes.push(None);
        match res {
            Ok(session) => sim.enter(i, session, vec![], 0)?,
            Err(e) => sim.obs.push(Obs::Local { i, call: Call::New, step: 0, bug: is_bug(&e) }),
        }
    }
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 20_000 {
            fail!("hang", "the simulation does not come to an end");
        }
        // (kind, node or wire)
        let mut acts: Vec<(u8, usize)> = vec![];
        for i in 0..n {
            let Some(l) = &sim.nodes[i] else { continue };
            if l.stuck {
                continue;
            }
            if !l.todo.is_empty() {
                acts.push((0, i));
            }
            if l.todo.is_empty() && l.session.can_finalize(&l.accum) == CanFinalize::Yes {
                acts.push((1, i));
            }
        }
        for (w, (_, to, pos, _)) in sim.wires.iter().enumerate().take(12) {
            let Some(l) = &sim.nodes[*to] else { continue };
            let q = s.plan.paths[*to][l.step];
            if !l.stuck && (q == *pos || s.plan.acceptable(q, *to, *pos)) {
                acts.push((2, w));
            }
        }
        if acts.is_empty() {
            // those which cannot be delivered any more may be in the way
            if sim.wires.len() > 12 {
                sim.wires.rotate_left(12);
                let deliverable = sim.wires.iter().any(|(_, to, pos, _)| {
                    sim.nodes[*to].as_ref().is_some_and(|l| {
                        let q = s.plan.paths[*to][l.step];
                        !l.stuck && (q == *pos || s.plan.acceptable(q, *to, *pos))
                    })
                });
                if deliverable {
                    continue;
                }
            }
            break;
        }
        let (k, x) = acts[g.below(acts.len())];
        match k {
            0 => sim.make(x, &mut g, &mut mg, s)?,
            1 => sim.finalize(x, &mut mg, s)?,
            _ => {
                let (from, to, _, msg) = sim.wires.remove(x);
                sim.deliver(from, to, msg, &mut mg, s)?;
            }
        }
    }
    for i in 0..n {
        sim.end(i);
    }
    Ok(sim)
}

impl<P, F, D> Sim<P, F, D>
where
    F: WireFormat,
    D: Digest + 'static,
    P: Protocol<Vid, Result = Res> + serde::Serialize + serde::de::DeserializeOwned,
{
    fn local(&mut self, i: usize, call: Call, step: usize, e: &LocalError) {
        self.obs.push(Obs::Local { i, call, step, bug: is_bug(e) });
        if let Some(l) = &mut self.nodes[i] {
            l.stuck = true;
        }
    }

    fn enter(
        &mut self,
        i: usize,
        session: Session<P, SP<F, D>>,
        cached: Vec<VerifiedMessage<Vid>>,
        step: usize,
    ) -> Result<(), Fail> {
        let dests: Vec<Vid> = session.message_destinations().iter().copied().collect();
        self.obs.push(Obs::Enter { i, id: session.round_id(), dests: dests.clone() });
        let accum = session.make_accumulator();
        self.nodes[i] = Some(Live { session, accum, todo: dests, sent: vec![], got: vec![], step, stuck: false });
        for m in cached {
            self.add(i, None, m);
        }
        Ok(())
    }

    fn add(&mut self, i: usize, from: Option<Vid>, m: VerifiedMessage<Vid>) {
        let l = self.nodes[i].as_mut().unwrap();
        if l.stuck {
            return;
        }
        let processed = l.session.process_message(m.clone());
        let step = l.step;
        match l.session.add_processed_message(&mut l.accum, processed) {
            Ok(()) => {
                l.got.push(m);
                self.obs.push(Obs::Added { i, from });
            }
            Err(e) => {
                if l.session.can_finalize(&l.accum) == CanFinalize::Yes {
                    self.corrupted.push(i);
                }
                self.local(i, Call::AddProcessed(from.map(|v| v.0)), step, &e)
            }
        }
    }

    fn make(&mut self, i: usize, g: &mut Gen, mg: &mut Gen, s: &Setup) -> Result<(), Fail> {
        let l = self.nodes[i].as_mut().unwrap();
        let to = l.todo.remove(g.below(l.todo.len()));
        let step = l.step;
        let (msg, art) = match l.session.make_message(&mut self.rngs[i], &to) {
            Ok(x) => x,
            Err(e) => {
                self.local(i, Call::Make(to.0), step, &e);
                return Ok(());
            }
        };
        if let Err(e) = l.session.add_artifact(&mut l.accum, art) {
            self.local(i, Call::AddArtifact(to.0), step, &e);
            return Ok(());
        }
        l.sent.push(to);
        self.obs.push(Obs::Made { i, to, msg: ser::<F, _>(&msg) });
        if let Some(j) = self.plan.idx(to) {
            self.wires.push((i, j, self.plan.paths[i][step], msg));
        }
        self.misuse(i, mg, s)
    }

    /// Repeats calls which must not be repeated.
    fn misuse(&mut self, i: usize, mg: &mut Gen, s: &Setup) -> Result<(), Fail> {
        if s.misuse == 0 || !mg.chance(s.misuse, 8) {
            return Ok(());
        }
        let Some(l) = self.nodes[i].as_mut() else { return Ok(()) };
        if l.stuck {
            return Ok(());
        }
        let what = mg.below(l.sent.len() + l.got.len());
        if what < l.sent.len() {
            let to = l.sent[what];
            let mut rng = rng_from(mg.u64());
            let Ok((_, art)) = l.session.make_message(&mut rng, &to) else { return Ok(()) };
            if l.session.add_artifact(&mut l.accum, art).is_ok() {
                fail!(s.kind, "the second artifact for {to:?} is taken");
            }
            self.misuses += 1;
        } else if let Some(m) = l.got.get(what - l.sent.len()) {
            let processed = l.session.process_message(m.clone());
            if l.session.add_processed_message(&mut l.accum, processed).is_ok() {
                fail!(s.kind, "a message that was added already is taken a second time");
            }
            self.misuses += 1;
        }
        Ok(())
    }

    fn deliver(&mut self, from: usize, to: usize, msg: Message<Vid>, mg: &mut Gen, s: &Setup) -> Result<(), Fail> {
        let msg = if s.wire { rewire(&msg, self.obs.len(), "message")? } else { msg };
        let from = self.plan.vid(from);
        let l = self.nodes[to].as_mut().unwrap();
        let step = l.step;
        match l.session.preprocess_message(&mut l.accum, &from, msg) {
            Ok(PreprocessOutcome::ToProcess(m)) => {
                self.obs.push(Obs::Pre { i: to, from, what: 0 });
                self.add(to, Some(from), *m);
            }
            Ok(PreprocessOutcome::Cached) => self.obs.push(Obs::Pre { i: to, from, what: 1 }),
            Ok(PreprocessOutcome::Error(_)) => self.obs.push(Obs::Pre { i: to, from, what: 2 }),
            Err(e) => self.local(to, Call::Preprocess(from.0), step, &e),
        }
        self.misuse(to, mg, s)
    }

    fn finalize(&mut self, i: usize, mg: &mut Gen, s: &Setup) -> Result<(), Fail> {
        self.misuse(i, mg, s)?;
        let l = self.nodes[i].take().unwrap();
        let step = l.step;
        match l.session.finalize_round(&mut self.rngs[i], l.accum) {
            Ok(RoundOutcome::AnotherRound { session, cached_messages }) => {
                ensure!(step + 1 < self.plan.paths[i].len(), "hang", "party {i} does not finish");
                self.enter(i, *session, cached_messages, step + 1)?;
            }
            Ok(RoundOutcome::Finished(report)) => self.report(i, report),
            Err(e) => self.local(i, Call::Finalize, step, &e),
        }
        Ok(())
    }

    fn end(&mut self, i: usize) {
        let Some(l) = self.nodes[i].take() else { return };
        let never = l.session.can_finalize(&l.accum) == CanFinalize::Never;
        let step = l.step;
        let res = if never { l.session.terminate_due_to_errors(l.accum) } else { l.session.terminate(l.accum) };
        match res {
            Ok(report) => self.report(i, report),
            Err(e) => self.local(i, Call::Terminate, step, &e),
        }
    }

    fn report(&mut self, i: usize, report: SessionReport<P, SP<F, D>>) {
        let (outcome, result) = match &report.outcome {
            SessionOutcome::Result(r) => ("result", Some(r.clone())),
            SessionOutcome::NotEnoughMessages => ("not enough messages", None),
            SessionOutcome::Terminated => ("terminated", None),
        };
        self.obs.push(Obs::Report(Rep {
            i,
            outcome: outcome.into(),
            result,
            provable: report
                .provable_errors
                .iter()
                .map(|(k, e)| (*k, (e.description().to_string(), ser::<F, _>(e))))
                .collect(),
            unprovable: report.unprovable_errors.iter().map(|(k, e)| (*k, e.to_string())).collect(),
            missing: report.missing_messages.iter().map(|(k, v)| (k.clone(), v.iter().copied().collect())).collect(),
        }));
        self.reports[i] = Some(report);
    }

    /// The report of a party.
    pub fn rep(&self, i: usize) -> Option<&Rep> {
        self.obs.iter().find_map(|o| match o {
            Obs::Report(r) if r.i == i => Some(r),
            _ => None,
        })
    }
    pub fn locals(&self, i: usize) -> Vec<(Call, usize, bool)> {
        self.obs
            .iter()
            .filter_map(|o| match o {
                Obs::Local { i: j, call, step, bug } if *j == i => Some((*call, *step, *bug)),
                _ => None,
            })
            .collect()
    }
}

/// The first difference between two executions.
pub fn differ<O: PartialEq + Debug>(a: &[O], b: &[O]) -> Option<String> {
    let k = a.iter().zip(b).position(|(x, y)| x != y).or((a.len() != b.len()).then(|| a.len().min(b.len())))?;
    let show = |v: &[O]| v.get(k).map(|o| { let mut s = format!("{o:?}"); s.truncate(1500); s }).unwrap_or("nothing".into());
    Some(format!("at {k}: {} / {}", show(a), show(b)))
}
