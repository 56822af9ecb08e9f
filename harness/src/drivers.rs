//! The drivers: C14 (concurrent sessions), C16 (randomness), C18 (the synchronous runner).
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::{Arc, Mutex},
    time::Duration,
};

use manul::{
    dev::{run_sync, tokio::run_async},
    protocol::Protocol,
    session::{
        tokio::{par_run_session, run_session, MessageIn, MessageOut},
        LocalError, Message, Session, SessionId, SessionOutcome, SessionReport, WireFormat,
    },
};
use tokio::{sync::mpsc, task::JoinHandle};
use tokio_util::sync::CancellationToken;

use crate::{
    chain::*,
    ensure, fail,
    misuse::{due, gen_bug},
    net::*,
    params::{NonceLog, Signer, Vid, SP},
    proto::*,
    runner::{facet, Check, Ctx, Fail, Res as CaseRes},
    steps::{is_bug, Call},
    util::{bits, rng_from, Gen, H},
    wide,
    wire::{keys, part, to_v},
    with_format, with_both,
};

pub const PATIENCE: Duration = Duration::from_secs(25);

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C14",
            rule: "a case is a generated protocol (or a chain), a driver for each party, a schedule of the transport \
                   (order, speed, channel capacities), and possibly a misbehaving party and cancellations; or one \
                   party with up to 220 peers. It is non-trivial if at least two messages were delivered and at least \
                   one was delayed past a later one, or the wide case has more than 100 messages one way",
            assumptions: &[
                "the transport keeps reading what the drivers send",
                "messages are delivered at most one round early",
                "a driver that makes no progress for 25 seconds is stuck",
            ],
            kinds: &["C14", "panic", "hang"],
            facets: vec![
                facet("network", 3000, |g, c| run_net(g, c, "C14", Sort::Plain)),
                facet("offences", 2000, |g, c| run_net(g, c, "C14", Sort::Bad)),
                facet("cancelled", 2000, |g, c| run_net(g, c, "C14", Sort::Cancel)),
                facet("chained", 1000, |g, c| run_net(g, c, "C14", Sort::Chain)),
                facet("async-runner", 800, |g, c| run_runner(g, c, "C14", true)),
                facet("failures", 5000, |g, c| run_broken(g, c, "C14")),
                facet("wide", 100, wide::run),
                facet("wide-runner", 24, wide::run_wide_async),
            ],
        },
        Check {
            id: "C16",
            rule: "a case is a generated protocol (or a chain) executed by stepwise calls in a generated order, by the \
                   concurrent drivers, or by one of the two runners; it is non-trivial if at least 8 random values \
                   were drawn by at least two parties",
            assumptions: &["64-bit random values do not collide by chance"],
            kinds: &["C16", "panic", "hang"],
            facets: vec![
                facet("stepwise", 4000, run_stepwise),
                facet("drivers", 2000, |g, c| run_net(g, c, "C16", Sort::Plain)),
                facet("drivers-chained", 800, |g, c| run_net(g, c, "C16", Sort::Chain)),
                facet("async-runner", 800, |g, c| run_runner(g, c, "C16", true)),
                facet("sync-runner", 2000, |g, c| run_runner(g, c, "C16", false)),
            ],
        },
        Check {
            id: "C18",
            rule: "a case is a generated protocol (or a chain), possibly with a party that misbehaves, and a seed of \
                   the runner, or one of the example protocols; it is non-trivial if at least one message was sent",
            assumptions: &["protocols in which no party can be two rounds ahead of a recipient of its messages"],
            kinds: &["C18", "panic", "hang"],
            facets: vec![
                facet("honest", 6000, |g, c| run_runner(g, c, "C18", false)),
                facet("silent", 500, run_silent),
                facet("offences", 4000, run_unserved),
                facet("examples", 600, run_examples),
                facet("message-types", 8000, crate::zoo::run_sync_only),
            ],
        },
    ]
}

// ------------------------------------------------------------------------------------------ common

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort {
    Plain,
    Bad,
    Cancel,
    Chain,
}

/// How a session ends if everything that can be delivered is delivered.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fate {
    Result,
    NotEnough,
    Stuck,
}

/// A party that breaks the rules in one of its messages.
#[derive(Clone, Debug)]
pub struct Offence {
    pub who: usize,
    pub leaf: usize,
    pub twist: Twist,
}
impl Offence {
    /// Whether the message at this position is invalid for this recipient.
    fn spoils(&self, plan: &Plan, pos: Pos, from: usize, to: usize) -> bool {
        let kind = match self.twist.what {
            What::BadTag(k) | What::Unprov(k) => k,
            _ => return false,
        };
        from == self.who
            && pos.p as usize == self.leaf
            && pos.stage == self.twist.stage
            && !pos.echo
            && shape_has(plan.shape(pos), kind)
            && (kind != DM || self.twist.to & (1 << to) != 0)
    }
}

pub fn gen_offence(g: &mut Gen, plan: &Plan) -> Option<Offence> {
    let who = g.below(plan.n());
    let mains: Vec<Pos> =
        plan.paths[who].iter().filter(|p| !p.echo && !plan.dests(**p, who).is_empty()).copied().collect();
    if mains.is_empty() {
        return None;
    }
    let pos = *g.pick(&mains);
    let kinds: Vec<u8> = KINDS.into_iter().filter(|k| shape_has(plan.shape(pos), *k)).collect();
    if kinds.is_empty() {
        return None;
    }
    let k = *g.pick(&kinds);
    let what = if g.chance(1, 2) { What::BadTag(k) } else { What::Unprov(k) };
    Some(Offence { who, leaf: pos.p as usize, twist: Twist { stage: pos.stage, what, to: g.mask(plan.n()) } })
}

/// What happens to each party in the end. `sent` overrides what a cancelled party has sent.
pub fn fates(
    plan: &Plan,
    bad: Option<&Offence>,
    sent: &BTreeMap<usize, BTreeSet<(Pos, usize)>>,
) -> (Vec<Fate>, Vec<usize>) {
    let n = plan.n();
    let mut fate = vec![Fate::Stuck; n];
    let mut step = vec![0usize; n];
    loop {
        let mut moved = false;
        for i in 0..n {
            if fate[i] != Fate::Stuck || sent.contains_key(&i) {
                continue;
            }
            let pos = plan.paths[i][step[i]];
            let from: Vec<usize> = plan.expecting(pos, i).into_iter().filter_map(|v| plan.idx(v)).collect();
            let all = from.iter().all(|j| match sent.get(j) {
                Some(s) => s.contains(&(pos, i)),
                None => plan.paths[*j].iter().position(|p| *p == pos).map(|k| k <= step[*j]).unwrap_or(false),
            });
            if !all {
                continue;
            }
            moved = true;
            if bad.map(|b| from.iter().any(|j| b.spoils(plan, pos, *j, i))).unwrap_or(false) {
                fate[i] = Fate::NotEnough;
            } else if step[i] + 1 == plan.paths[i].len() {
                fate[i] = Fate::Result;
            } else {
                step[i] += 1;
            }
        }
        if !moved {
            return (fate, step);
        }
    }
}

/// Whether no party can send a message to a party that is two rounds behind, and there are no diverging branches.
pub fn tight(plan: &Plan) -> bool {
    for cfg in &plan.cfgs {
        for (s, st) in cfg.stages.iter().enumerate() {
            let all = cfg.active_mask(s);
            if st.sib && st.alts & all != 0 && st.alts & all != all {
                return false;
            }
        }
    }
    for i in 0..plan.n() {
        let path = &plan.paths[i];
        for (k, pos) in path.iter().enumerate() {
            for d in plan.dests(*pos, i) {
                let Some(d) = plan.idx(d) else { continue };
                // The recipient is known to have reached the round before the one the message is for
                let Some(at) = plan.paths[d].iter().position(|p| p == pos) else { return false };
                if at < 1 {
                    continue;
                }
                let need = plan.paths[d][at - 1];
                let known = path[..k].iter().any(|p| {
                    plan.expecting(*p, i).contains(&plan.vid(d))
                        && plan.paths[d].iter().position(|q| q == p).map(|q| q >= at - 1).unwrap_or(false)
                });
                if !known && need != *pos && at >= 2 {
                    return false;
                }
                // right at the start: one round early at most
                if !known && at == 1 && pos.echo {
                    return false;
                }
            }
        }
    }
    true
}

/// Configurations in which the transport does not have to hold messages back.
pub fn gen_tight(g: &mut Gen, leaves: usize, k: Knobs) -> Vec<Arc<Cfg>> {
    for _ in 0..6 {
        let cfgs = gen_cfgs(g, leaves, k);
        if tight(&Plan::new(cfgs.clone())) {
            return cfgs;
        }
    }
    gen_cfgs(g, leaves, Knobs { siblings: false, early: false, full: 8, ..k })
}

/// Whether the values drawn by the parties are all different.
pub fn check_fresh(log: &Log, nonces: &NonceLog, apart: bool) -> Result<usize, Fail> {
    let mut seen: HashMap<u64, String> = HashMap::new();
    let mut once: BTreeSet<(u8, u16, u8, u8, u8)> = BTreeSet::new();
    let mut halves: [HashMap<u32, usize>; 2] = Default::default();
    let mut add = |x: u64, party: u16, what: String| -> CaseRes {
        // no part of them repeats much, either
        if apart {
            for (h, half) in halves.iter_mut().zip([x as u32, (x >> 32) as u32]) {
                let n = h.entry(half).or_default();
                *n += 1;
                ensure!(*n < 4, "C16:repeated", "one half of the random value of {what} was in {} others", *n - 1);
            }
        }
        let x = if apart { x } else { x ^ H::new("party").u(party as u64).f() };
        match seen.insert(x, what.clone()) {
            Some(other) => fail!("C16:repeated", "the random value of {what} is also that of {other}"),
            None => Ok(()),
        }
    };
    for e in log.get() {
        match &e {
            Ev::Entry { p, me, draw, .. } => add(*draw, *me, format!("entry {p} of v{me}"))?,
            Ev::Made { p, me, stage, alt, kind, to, part } => {
                add(part.fresh, *me, format!("part {kind} of v{me} for v{to} in {p}/{stage}/{alt}"))?;
                if *kind != DM {
                    ensure!(
                        once.insert((*p, *me, *stage, *alt, *kind)),
                        "C16:broadcast-twice",
                        "v{me} created broadcast {kind} of {p}/{stage}/{alt} twice"
                    );
                }
            }
            Ev::Art { p, me, stage, art, .. } => {
                add(art.fresh, *me, format!("artifact of v{me} for v{} in {p}/{stage}", art.to))?
            }
            Ev::Fin { p, me, stage, draw, .. } => add(*draw, *me, format!("finalization of {p}/{stage} by v{me}"))?,
            _ => {}
        }
    }
    let mut k = 0;
    if apart {
        for x in nonces.lock().unwrap().iter() {
            k += 1;
            add(u64::from_le_bytes(*x), 0, format!("signature {k}"))?;
        }
    }
    Ok(seen.len())
}

/// All recipients of a round get the same broadcasts.
struct Broadcasts(BTreeMap<(usize, Pos, usize), serde_json::Value>);
impl Broadcasts {
    fn add(&mut self, who: usize, pos: Pos, msg: &Message<Vid>) -> CaseRes {
        if keys().is_none() {
            return Ok(());
        }
        let v = to_v(msg);
        for k in [1usize, 2] {
            if let Some(p) = part(&v, k) {
                if let Some(old) = self.0.get(&(who, pos, k)) {
                    ensure!(old == p, "C16:broadcasts", "party {who} sends different broadcasts {k} at {pos:?}");
                } else {
                    self.0.insert((who, pos, k), p.clone());
                }
            }
        }
        Ok(())
    }
}

fn local(id: &str, e: LocalError) -> Fail {
    Fail::new(format!("{id}:local-error"), format!("{e:?}"))
}

fn check_report<P: Protocol<Vid, Result = Res>, F: WireFormat>(
    id: &str,
    plan: &Plan,
    book: &Book,
    sr: &[u8],
    i: usize,
    fate: Fate,
    bad: Option<&Offence>,
    rep: &SessionReport<P, SP<F>>,
) -> CaseRes {
    let vid = plan.vid(i);
    match (&rep.outcome, fate) {
        (SessionOutcome::Result(r), Fate::Result) => {
            let want = book.result(plan, sr, i, 0)?;
            ensure!(*r == want, format!("{id}:result"), "{vid:?}: {r:?} instead of {want:?}");
        }
        (SessionOutcome::NotEnoughMessages, Fate::NotEnough) | (SessionOutcome::Terminated, Fate::Stuck) => {}
        (o, f) => fail!(format!("{id}:outcome"), "{vid:?} ended with {:?}, expected: {f:?}", o.brief()),
    }
    let allowed = |v: &Vid| bad.map(|b| plan.vid(b.who) == *v).unwrap_or(false);
    ensure!(
        rep.provable_errors.keys().chain(rep.unprovable_errors.keys()).all(allowed),
        format!("{id}:errors"),
        "{vid:?}: errors of honest parties: {}",
        rep.brief()
    );
    if fate == Fate::Result {
        ensure!(rep.missing_messages.is_empty(), format!("{id}:missing"), "{vid:?}: {}", rep.brief());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ drivers in a network

fn run_net(g: &mut Gen, ctx: &mut Ctx, id: &'static str, sort: Sort) -> CaseRes {
    let fmt = g.below(4);
    let k = Knobs { nmin: 1, nmax: 6, stages: 4, siblings: false, ..KNOBS };
    if sort == Sort::Chain {
        let tree = [1, 2, 3, 4][g.below(4)];
        return {
            let cfgs = gen_cfgs(g, leaves(tree), Knobs { nmax: 4, stages: 2, ..k });
            with_both!(tree, fmt, T, F => drive::<T, F>(g, ctx, id, cfgs, sort))
        };
    }
    let cfgs = vec![Arc::new(gen_cfg(g, k))];
    with_format!(fmt, F => drive::<T1, F>(g, ctx, id, cfgs, sort))
}

type Report<T, F> = Result<SessionReport<<T as manul::protocol::EntryPoint<Vid>>::Protocol, SP<F>>, LocalError>;

struct Wire {
    from: usize,
    to: usize,
    pos: Pos,
    msg: Message<Vid>,
}

struct Router<F: WireFormat> {
    plan: Plan,
    log: Log,
    out: mpsc::Receiver<MessageOut<SP<F>>>,
    ins: Vec<mpsc::Sender<MessageIn<SP<F>>>>,
    pool: Vec<Wire>,
    /// For each party: position in its path, and who it has not sent the message of that round to yet
    at: Vec<usize>,
    left: Vec<BTreeSet<Vid>>,
    sent: Vec<BTreeSet<(Pos, usize)>>,
    casts: Broadcasts,
    sid: SessionId,
    seen_log: usize,
    /// How many of the main rounds of each party were finalized
    fins: Vec<usize>,
    delivered: u64,
    overtaken: u64,
    story: String,
}

impl<F: WireFormat> Router<F> {
    fn take(&mut self, id: &str, m: MessageOut<SP<F>>) -> CaseRes {
        let (Some(i), Some(d)) = (self.plan.idx(m.from), self.plan.idx(m.to)) else {
            fail!(format!("{id}:sends"), "a message from {:?} to {:?}", m.from, m.to)
        };
        ensure!(m.session_id == self.sid, format!("{id}:sends"), "a message of another session");
        while self.left[i].is_empty() && self.at[i] + 1 < self.plan.paths[i].len() {
            self.at[i] += 1;
            self.left[i] = self.plan.dests(self.plan.paths[i][self.at[i]], i);
        }
        let pos = self.plan.paths[i][self.at[i]];
        ensure!(
            self.left[i].remove(&m.to),
            format!("{id}:sends"),
            "{:?} sends a message to {:?} a second time at {pos:?}, or before sending all messages of that round",
            m.from,
            m.to
        );
        self.sent[i].insert((pos, d));
        self.casts.add(i, pos, &m.message)?;
        self.pool.push(Wire { from: i, to: d, pos, msg: m.message });
        Ok(())
    }
    /// Where the party certainly is: the position after the last main round it has finalized.
    fn refresh(&mut self) {
        let log = self.log.0.lock().unwrap();
        for e in &log[self.seen_log..] {
            if let Ev::Fin { me, .. } = e {
                if let Some(i) = self.plan.idx(Vid(*me)) {
                    self.fins[i] += 1;
                }
            }
        }
        self.seen_log = log.len();
    }
    fn place(&self, i: usize) -> Pos {
        let path = &self.plan.paths[i];
        let mains: Vec<usize> = (0..path.len()).filter(|k| !path[*k].echo).collect();
        path[*mains.get(self.fins[i]).unwrap_or(&(path.len() - 1))]
    }
    fn next_main(&self, i: usize, q: Pos) -> Option<Pos> {
        self.plan.paths[i].iter().skip_while(|p| **p != q).skip(1).find(|p| !p.echo).copied()
    }
    fn deliverable(&mut self) -> Vec<usize> {
        self.refresh();
        (0..self.pool.len())
            .filter(|k| {
                let w = &self.pool[*k];
                let q = self.place(w.to);
                // the party may be in the echo round already, from which the same messages are acceptable
                // a message for the next protocol of a chain is not kept if there is another round to go
                self.plan.acceptable(q, w.to, w.pos) && (w.pos.p == q.p || self.next_main(w.to, q) == Some(w.pos))
            })
            .collect()
    }
    /// Gives the message to the driver, unless the channel is full.
    fn hand_over(&mut self, k: usize) -> bool {
        let w = &self.pool[k];
        let m = MessageIn { from: self.plan.vid(w.from), message: w.msg.clone() };
        if let Err(mpsc::error::TrySendError::Full(_)) = self.ins[w.to].try_send(m) {
            return false;
        }
        if k > 0 {
            self.overtaken += 1;
        }
        self.delivered += 1;
        self.pool.remove(k);
        true
    }
}

fn runtime(cfgs: &[Arc<Cfg>]) -> tokio::runtime::Runtime {
    let cfgs = cfgs.to_vec();
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .on_thread_start(move || set_entry_nums(&cfgs))
        .build()
        .expect("runtime")
}

fn drive<T: Tree, F: WireFormat>(
    g: &mut Gen,
    ctx: &mut Ctx,
    id: &'static str,
    cfgs: Vec<Arc<Cfg>>,
    sort: Sort,
) -> CaseRes {
    let rt = runtime(&cfgs);
    let res = rt.block_on(async {
        match tokio::time::timeout(PATIENCE, drive_inner::<T, F>(g, ctx, id, cfgs, sort)).await {
            Ok(r) => r,
            Err(_) => Err(Fail::new(format!("{id}:stuck"), "the drivers do not come to an end")),
        }
    });
    rt.shutdown_background();
    res
}

async fn drive_inner<T: Tree, F: WireFormat>(
    g: &mut Gen,
    ctx: &mut Ctx,
    id: &'static str,
    cfgs: Vec<Arc<Cfg>>,
    sort: Sort,
) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let log = Log::default();
    let nonces: NonceLog = Default::default();
    let seed = g.u64();
    let sid = SessionId::from_seed::<SP<F>>(&seed.to_be_bytes());
    let bad = match sort {
        Sort::Bad => gen_offence(g, &plan),
        Sort::Chain if g.chance(1, 4) => gen_offence(g, &plan),
        _ => None,
    };
    let par: Vec<bool> = (0..n).map(|_| g.chance(1, 2)).collect();
    let (tx, out) = mpsc::channel([1, 2, 7, 100][g.below(4)]);
    let tokens: Vec<CancellationToken> = (0..n).map(|_| CancellationToken::new()).collect();
    let mut ins = Vec::new();
    let mut handles: Vec<Option<JoinHandle<Report<T, F>>>> = Vec::new();
    for i in 0..n {
        let (in_tx, mut rx) = mpsc::channel([1, 2, 7, 100][g.below(4)]);
        ins.push(in_tx);
        let mut twists = vec![vec![]; cfgs.len()];
        if let Some(b) = bad.as_ref().filter(|b| b.who == i) {
            twists[b.leaf].push(b.twist.clone());
        }
        let entry = T::build(&cfgs, &log, &twists);
        let mut rng = rng_from(H::new("node").u(seed).u(i as u64).f());
        let signer = Signer { nonces: Some(nonces.clone()), ..Signer::new(plan.vid(i)) };
        let session =
            Session::<T::Protocol, SP<F>>::new(&mut rng, sid.clone(), signer, entry).map_err(|e| local(id, e))?;
        let (tx, token, par) = (tx.clone(), tokens[i].clone(), par[i]);
        handles.push(Some(tokio::spawn(async move {
            if par {
                par_run_session(&mut rng, &tx, &mut rx, token, session).await
            } else {
                run_session(&mut rng, &tx, &mut rx, token, session).await
            }
        })));
    }
    drop(tx);
    let left = (0..n).map(|i| plan.dests(plan.paths[i][0], i)).collect();
    let mut r = Router::<F> {
        plan,
        log: log.clone(),
        out,
        ins,
        pool: Vec::new(),
        at: vec![0; n],
        left,
        sent: vec![BTreeSet::new(); n],
        casts: Broadcasts(BTreeMap::new()),
        sid: sid.clone(),
        seen_log: 0,
        fins: vec![0; n],
        delivered: 0,
        overtaken: 0,
        story: String::new(),
    };

    // a cancelled party and the moment
    let victim = if sort == Sort::Cancel { Some((g.below(n), g.below(40))) } else { None };
    let lazy = g.below(4);
    let slow: u16 = if g.chance(1, 2) { g.mask(n) } else { 0 };
    let mut reports: Vec<Option<Report<T, F>>> = (0..n).map(|_| None).collect();
    let mut round = 0usize;
    let mut idle = 0u32;
    // phase 1: run until everybody who can finish did
    loop {
        round += 1;
        let mut progress = false;
        if let Some((v, at)) = victim {
            if round == at + 1 && !tokens[v].is_cancelled() {
                tokens[v].cancel();
                progress = true;
            }
        }
        // read what was sent
        let greedy = lazy == 0 || !g.chance(lazy, 5);
        while let Ok(m) = r.out.try_recv() {
            progress = true;
            r.take(id, m)?;
            if !greedy {
                break;
            }
        }
        // deliver something
        let mut can = r.deliverable();
        if slow != 0 && can.iter().any(|k| slow & (1 << r.pool[*k].to) == 0) && g.chance(3, 4) {
            can.retain(|k| slow & (1 << r.pool[*k].to) == 0);
        }
        if !can.is_empty() {
            let k = if idle > 3 { (idle as usize) % can.len() } else { g.below(can.len()) };
            if r.hand_over(can[k]) {
                progress = true;
            }
        }
        for i in 0..n {
            if handles[i].as_ref().map(|h| h.is_finished()).unwrap_or(false) {
                progress = true;
                let h = handles[i].take().unwrap();
                match h.await {
                    Ok(rep) => reports[i] = Some(rep),
                    Err(e) => fail!("panic", "the driver of {:?} panics: {e}", r.plan.vid(i)),
                }
            }
        }
        if progress {
            idle = 0;
            for _ in 0..g.below(4) {
                tokio::task::yield_now().await;
            }
            continue;
        }
        // Nothing to do: is there anybody who should be able to go on?
        let mut sent = BTreeMap::new();
        if let Some((v, _)) = victim {
            if tokens[v].is_cancelled() {
                if handles[v].is_some() {
                    // must come to an end on its own
                    idle += 1;
                    nap(idle, &mut r, id).await?;
                    continue;
                }
                if !matches!(&reports[v], Some(Ok(rep)) if matches!(rep.outcome, SessionOutcome::Result(_))) {
                    sent.insert(v, r.sent[v].clone());
                }
            }
        }
        let (fate, steps) = fates(&r.plan, bad.as_ref(), &sent);
        let waiting = (0..n).any(|i| handles[i].is_some() && fate[i] != Fate::Stuck);
        // has everybody else come as far as it can?
        let lagging = (0..n).any(|i| {
            handles[i].is_some() && !sent.contains_key(&i) && {
                let path = &r.plan.paths[i][..=steps[i]];
                let fins = path[..steps[i]].iter().filter(|p| !p.echo).count() - path[steps[i]].echo as usize;
                r.fins[i] < fins
                    || path.iter().any(|p| {
                        r.plan.dests(*p, i).into_iter().any(|d| !r.sent[i].contains(&(*p, r.plan.idx(d).unwrap())))
                    })
            }
        });
        let later = victim.map(|(v, _)| !tokens[v].is_cancelled() && handles[v].is_some()).unwrap_or(false);
        if !waiting && !later && !lagging && idle > 2 {
            break;
        }
        idle += 1;
        if idle == 300 {
            r.story = format!(
                "offloading {par:?}, offence {bad:?}, cancelled {victim:?}, running {:?}, expected {fate:?} at {steps:?}, \
                 finalized {:?}, in the pool: {:?}; {}",
                handles.iter().map(|h| h.is_some()).collect::<Vec<_>>(),
                r.fins,
                r.pool.iter().map(|w| (w.from, w.to, w.pos)).collect::<Vec<_>>(),
                r.plan.describe()
            );
            if crate::runner::tracing() {
                eprintln!("{}", r.story);
            }
        }
        nap(idle, &mut r, id).await?;
    }
    // phase 2: everybody else is waiting for messages that will never come
    let mut sent = BTreeMap::new();
    if let Some((v, _)) = victim {
        if !matches!(&reports[v], Some(Ok(rep)) if matches!(rep.outcome, SessionOutcome::Result(_))) {
            sent.insert(v, r.sent[v].clone());
        }
    }
    let (fate, steps) = fates(&r.plan, bad.as_ref(), &sent);
    for t in &tokens {
        t.cancel();
    }
    let mut k = 0;
    while handles.iter().any(|h| h.is_some()) {
        while let Ok(m) = r.out.try_recv() {
            r.take(id, m)?;
        }
        for i in 0..n {
            if handles[i].as_ref().map(|h| h.is_finished()).unwrap_or(false) {
                match handles[i].take().unwrap().await {
                    Ok(rep) => reports[i] = Some(rep),
                    Err(e) => fail!("panic", "the driver of {:?} panics: {e}", r.plan.vid(i)),
                }
            }
        }
        k += 1;
        nap(k, &mut r, id).await?;
    }
    while let Ok(m) = r.out.try_recv() {
        r.take(id, m)?;
    }

    let book = Book::new(&log.get());
    let mut ends: BTreeMap<&str, u64> = BTreeMap::new();
    for i in 0..n {
        let vid = r.plan.vid(i);
        let rep = match reports[i].take() {
            Some(Ok(rep)) => rep,
            Some(Err(e)) => fail!(format!("{id}:local-error"), "{vid:?} (par {}): {e:?}", par[i]),
            None => fail!(format!("{id}:stuck"), "{vid:?}"),
        };
        let cancelled = victim.map(|(v, _)| v == i).unwrap_or(false);
        let f = match &rep.outcome {
            // it may have made it to the end
            SessionOutcome::Result(_) if cancelled => Fate::Result,
            _ if cancelled => Fate::Stuck,
            _ => fate[i],
        };
        *ends.entry(match f {
            Fate::Result => "result",
            Fate::NotEnough => "not enough messages",
            Fate::Stuck => "terminated",
        })
        .or_default() += 1;
        check_report::<T::Protocol, F>(id, &r.plan, &book, sid.as_ref(), i, f, bad.as_ref(), &rep)?;
        // everything was sent
        let upto = match f {
            Fate::Result => r.plan.paths[i].len() - 1,
            _ if cancelled => continue,
            _ => steps[i],
        };
        for pos in &r.plan.paths[i][..=upto] {
            for d in r.plan.dests(*pos, i) {
                let d = r.plan.idx(d).unwrap();
                ensure!(
                    r.sent[i].contains(&(*pos, d)),
                    format!("{id}:sends"),
                    "{vid:?} (par {}) did not send its message of {pos:?} to {:?}",
                    par[i],
                    r.plan.vid(d)
                );
            }
        }
    }
    let values = check_fresh(&log, &nonces, true)?;
    for (k, v) in ends {
        ctx.add(format!("end: {k}"), v);
    }
    ctx.add("delivered", r.delivered);
    ctx.add("random values", values as u64);
    ctx.add("concurrent sessions with offloading", par.iter().filter(|p| **p).count() as u64);
    if if id == "C16" { values >= 8 && n > 1 } else { r.delivered >= 2 && r.overtaken > 0 } {
        ctx.nontrivial();
    }
    ctx.note(|| {
        format!("{}, offloading {par:?}, offence {bad:?}, cancelled {victim:?}, {} delivered", r.plan.describe(), r.delivered)
    });
    Ok(())
}

/// Drivers of sessions one of which fails on its own.
pub fn run_broken(g: &mut Gen, ctx: &mut Ctx, id: &'static str) -> CaseRes {
    let fmt = g.below(4);
    let tree = [0, 0, 1][g.below(3)];
    {
        let cfgs = gen_tight(g, leaves(tree), Knobs { nmax: 4, stages: 3, ..KNOBS });
        with_both!(tree, fmt, T, F => {
            let rt = runtime(&cfgs);
            let res = rt.block_on(broken::<T, F>(g, ctx, id, cfgs));
            rt.shutdown_background();
            res
        })
    }
}

async fn broken<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, id: &'static str, cfgs: Vec<Arc<Cfg>>) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let (b, leaf, twist) = gen_bug(g, &plan);
    let due = due(&plan, b, leaf, &twist);
    let seed = g.u64();
    let par: Vec<bool> = (0..n).map(|_| g.chance(1, 2)).collect();
    let story = || format!("{}, offloading {par:?}, party {b} has {twist:?} in part {leaf}: {due:?}", plan.describe());
    let sid = SessionId::from_seed::<SP<F>>(&seed.to_be_bytes());
    let log = Log::default();
    let mut sessions = Vec::new();
    for i in 0..n {
        let mut twists = vec![vec![]; cfgs.len()];
        if i == b {
            twists[leaf].push(twist.clone());
        }
        let mut rng = rng_from(H::new("node").u(seed).u(i as u64).f());
        let entry = T::build(&cfgs, &log, &twists);
        match Session::<T::Protocol, SP<F>>::new(&mut rng, sid.clone(), Signer::new(plan.vid(i)), entry) {
            Ok(s) => sessions.push((rng, s)),
            // that is what other facets are for
            Err(e) if due.as_ref().is_some_and(|d| d.call == Call::New) && i == b && (is_bug(&e) || twist.what != What::ErrEntry) => {
                return Ok(())
            }
            Err(e) => return Err(local(id, e)),
        }
    }
    let (tx, mut out) = mpsc::channel([1, 2, 7, 100][g.below(4)]);
    let token = CancellationToken::new();
    let mut ins = Vec::new();
    let mut handles: Vec<Option<JoinHandle<Report<T, F>>>> = Vec::new();
    for (i, (mut rng, session)) in sessions.into_iter().enumerate() {
        let (in_tx, mut rx) = mpsc::channel([1, 2, 7, 100][g.below(4)]);
        ins.push(in_tx);
        let (tx, token, par) = (tx.clone(), token.clone(), par[i]);
        handles.push(Some(tokio::spawn(async move {
            if par {
                par_run_session(&mut rng, &tx, &mut rx, token, session).await
            } else {
                run_session(&mut rng, &tx, &mut rx, token, session).await
            }
        })));
    }
    drop(tx);
    let mut pool: Vec<(usize, MessageIn<SP<F>>)> = Vec::new();
    let mut reports: Vec<Option<Report<T, F>>> = (0..n).map(|_| None).collect();
    let (mut idle, mut delivered) = (0u32, 0);
    let start = std::time::Instant::now();
    while handles.iter().any(|h| h.is_some()) {
        let mut progress = false;
        while let Ok(m) = out.try_recv() {
            let Some(to) = plan.idx(m.to) else { fail!(format!("{id}:sends"), "a message to {:?}", m.to) };
            pool.push((to, MessageIn { from: m.from, message: m.message }));
            progress = true;
        }
        if !pool.is_empty() {
            let k = g.below(pool.len()).min(2);
            let (to, m) = pool.remove(k);
            match ins[to].try_send(m) {
                Ok(()) => {
                    delivered += 1;
                    progress = true;
                }
                Err(mpsc::error::TrySendError::Full(m)) => pool.push((to, m)),
                // whoever has come to an end needs nothing more
                Err(mpsc::error::TrySendError::Closed(_)) => progress = true,
            }
        }
        for i in 0..n {
            if handles[i].as_ref().map(|h| h.is_finished()).unwrap_or(false) {
                progress = true;
                match handles[i].take().unwrap().await {
                    Ok(rep) => reports[i] = Some(rep),
                    Err(e) => fail!("panic", "the driver of {:?} panics: {e}; {}", plan.vid(i), story()),
                }
            }
        }
        // Those who are waiting for the one that has failed
        if idle > 20 && due.is_some() && reports[b].is_some() && pool.is_empty() {
            token.cancel();
        }
        if start.elapsed() > PATIENCE {
            fail!(format!("{id}:stuck"), "running: {:?}; {}", handles.iter().map(|h| h.is_some()).collect::<Vec<_>>(), story());
        }
        idle = if progress { 0 } else { idle + 1 };
        if idle < 3 {
            tokio::task::yield_now().await;
        } else {
            tokio::time::sleep(Duration::from_micros(if idle < 50 { 50 } else { 1000 })).await;
        }
    }
    for (i, rep) in reports.into_iter().enumerate() {
        let due = due.as_ref().filter(|_| i == b);
        match (rep.expect("all have ended"), due) {
            (Err(e), Some(d)) => ensure!(is_bug(&e) || !d.bug, format!("{id}:other"), "{e:?}; {}", story()),
            (Err(e), None) => fail!(format!("{id}:local-error"), "party {i}: {e:?}; {}", story()),
            (Ok(_), Some(_)) => fail!(format!("{id}:absorbed"), "the error does not come to light; {}", story()),
            (Ok(rep), None) => {
                let clean = rep.provable_errors.is_empty() && rep.unprovable_errors.is_empty();
                ensure!(clean, format!("{id}:charged"), "party {i}: {}; {}", rep.brief(), story());
                let fine = match rep.outcome {
                    SessionOutcome::Result(_) => true,
                    SessionOutcome::Terminated => token.is_cancelled(),
                    SessionOutcome::NotEnoughMessages => false,
                };
                ensure!(fine, format!("{id}:outcome"), "party {i}: {}; {}", rep.brief(), story());
            }
        }
    }
    let name = format!("{:?}", twist.what);
    let name = name.split('(').next().unwrap_or("").to_string();
    ctx.label(format!("{name}{}", if due.is_some() { "" } else { " (no effect)" }));
    ctx.add("delivered", delivered);
    if due.is_some() && n > 1 {
        ctx.nontrivial();
    }
    ctx.note(story);
    Ok(())
}

/// Lets the drivers work. While nothing happens, the pauses become longer.
async fn nap<F: WireFormat>(idle: u32, r: &mut Router<F>, id: &str) -> CaseRes {
    if idle < 3 {
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
    } else {
        let wait = Duration::from_micros(if idle < 50 { 50 } else { 1000 });
        if let Ok(Some(m)) = tokio::time::timeout(wait, r.out.recv()).await {
            r.take(id, m)?;
        } else {
            tokio::time::sleep(wait).await;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ runners

fn entries<T: Tree>(
    plan: &Plan,
    cfgs: &[Arc<Cfg>],
    log: &Log,
    nonces: &NonceLog,
    bad: Option<&Offence>,
) -> Vec<(Signer, T)> {
    (0..plan.n())
        .map(|i| {
            let mut twists = vec![vec![]; cfgs.len()];
            if let Some(b) = bad.filter(|b| b.who == i) {
                twists[b.leaf].push(b.twist.clone());
            }
            (Signer { nonces: Some(nonces.clone()), ..Signer::new(plan.vid(i)) }, T::build(cfgs, log, &twists))
        })
        .collect()
}

/// The session identifier, as seen by the protocol.
fn shared(log: &Log) -> Result<Vec<u8>, Fail> {
    let mut all = BTreeSet::new();
    for e in log.get() {
        if let Ev::Entry { sr, .. } = e {
            all.insert(sr);
        }
    }
    match all.len() {
        1 => Ok(all.into_iter().next().unwrap()),
        k => Err(Fail::new("C18:session-id", format!("{k} different session identifiers"))),
    }
}

fn run_runner(g: &mut Gen, ctx: &mut Ctx, id: &'static str, concurrent: bool) -> CaseRes {
    let fmt = g.below(4);
    let tree = [0, 0, 0, 1, 2, 3][g.below(6)];
    {
        let cfgs = gen_tight(g, leaves(tree), if tree == 0 { KNOBS } else { Knobs { nmax: 4, stages: 2, ..KNOBS } });
        with_both!(tree, fmt, T, F => runner::<T, F>(g, ctx, id, cfgs, concurrent, false))
    }
}

/// Protocols in which (nearly) nobody sends anything.
fn run_silent(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let mut cfg = gen_cfg(g, Knobs { nmax: 4, siblings: false, early: false, echo: 3, ..KNOBS });
    for s in &mut cfg.stages {
        if g.chance(5, 6) {
            s.adj = vec![0; cfg.ids.len()];
            s.s = 0;
        }
    }
    let cfgs = vec![Arc::new(cfg)];
    let cfgs = if tight(&Plan::new(cfgs.clone())) { cfgs } else { gen_tight(g, 1, KNOBS) };
    with_format!(g.below(4), F => runner::<T1, F>(g, ctx, "C18", cfgs, false, false))
}

fn run_unserved(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let fmt = g.below(4);
    let tree = [0, 0, 1][g.below(3)];
    {
        let cfgs = gen_tight(g, leaves(tree), Knobs { nmin: 2, nmax: 5, stages: 3, ..KNOBS });
        with_both!(tree, fmt, T, F => runner::<T, F>(g, ctx, "C18", cfgs, false, true))
    }
}

fn runner<T: Tree, F: WireFormat>(
    g: &mut Gen,
    ctx: &mut Ctx,
    id: &'static str,
    cfgs: Vec<Arc<Cfg>>,
    concurrent: bool,
    offence: bool,
) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let log = Log::default();
    let nonces: NonceLog = Default::default();
    let bad = if offence { gen_offence(g, &plan) } else { None };
    let eps = entries::<T>(&plan, &cfgs, &log, &nonces, bad.as_ref());
    let mut rng = rng_from(g.u64());
    let res = if concurrent {
        let par = g.chance(1, 2);
        let rt = runtime(&cfgs);
        let res = rt.block_on(async {
            tokio::time::timeout(PATIENCE, run_async::<T, SP<F>>(&mut rng, eps, par)).await
        });
        rt.shutdown_background();
        match res {
            Ok(r) => r,
            Err(_) => fail!(format!("{id}:stuck"), "the runner does not come to an end (offloading: {par}); {}", plan.describe()),
        }
    } else {
        run_sync::<T, SP<F>>(&mut rng, eps)
    };
    let res = res.map_err(|e| local(id, e))?;
    let ids: BTreeSet<Vid> = res.reports.keys().copied().collect();
    let all: BTreeSet<Vid> = (0..plan.n()).map(|i| plan.vid(i)).collect();
    ensure!(ids == all, format!("{id}:reports"), "reports of {ids:?} instead of {all:?}");
    let sr = shared(&log)?;
    let book = Book::new(&log.get());
    let (fate, _) = fates(&plan, bad.as_ref(), &BTreeMap::new());
    for i in 0..plan.n() {
        let rep = &res.reports[&plan.vid(i)];
        check_report::<T::Protocol, F>(id, &plan, &book, &sr, i, fate[i], bad.as_ref(), rep)
            .map_err(|f| Fail { msg: format!("{}; offence {bad:?}, {}", f.msg, plan.describe()), ..f })?;
    }
    let honest = fate.iter().all(|f| *f == Fate::Result);
    if honest {
        match res.results() {
            Ok(map) => {
                for i in 0..plan.n() {
                    let want = book.result(&plan, &sr, i, 0)?;
                    ensure!(map.get(&plan.vid(i)) == Some(&want), format!("{id}:results"), "{:?}", plan.vid(i));
                }
                ensure!(map.len() == plan.n(), format!("{id}:results"), "{} results", map.len());
            }
            Err(e) => fail!(format!("{id}:results"), "no results: {e}"),
        }
    } else {
        ensure!(res.results().is_err(), format!("{id}:results"), "results of a run in which not everybody finished");
    }
    let values = check_fresh(&log, &nonces, true)?;
    ctx.add("random values", values as u64);
    ctx.add("parties", plan.n() as u64);
    for f in &fate {
        ctx.label(format!("end: {f:?}"));
    }
    let sends = (0..plan.n()).any(|i| plan.paths[i].iter().any(|p| !plan.dests(*p, i).is_empty()));
    if !sends {
        ctx.label("no messages at all");
    }
    if sends && (id != "C16" || values >= 8) {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{}, offence {bad:?}", plan.describe()));
    Ok(())
}

// ------------------------------------------------------------------------------------------ stepwise randomness

fn run_stepwise(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let fmt = g.below(4);
    let tree = [0, 0, 0, 1, 2, 4][g.below(6)];
    {
        let cfgs = gen_cfgs(g, leaves(tree), if tree == 0 { KNOBS } else { Knobs { nmax: 4, stages: 2, ..KNOBS } });
        with_both!(tree, fmt, T, F => stepwise::<T, F>(g, ctx, cfgs))
    }
}

fn stepwise<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let log = Log::default();
    let style = gen_style(g, n);
    let seed = g.u64();
    let mut net = Net::<T::Protocol, F>::new(plan, log.clone(), &seed.to_be_bytes(), seed, style, |_| {
        T::build(&cfgs, &log, &[])
    })?;
    net.pool = Some(vec![]);
    net.run(g, true)?;
    net.check_results()?;
    let mut casts = Broadcasts(BTreeMap::new());
    let mut nonces: BTreeMap<String, String> = BTreeMap::new();
    for (pos, from, to, msg) in net.pool.as_ref().unwrap() {
        casts.add(*from, *pos, msg)?;
        // signatures of different parts use different randomness
        let v = to_v(msg);
        for k in 0..3 {
            if let Some(s) = part(&v, k).and_then(crate::wire::sig_of) {
                let what = if k == 0 {
                    format!("{from} to {to}, {pos:?}")
                } else {
                    format!("{from}, broadcast {k}, {pos:?}")
                };
                let nonce = nonce_of::<F>(&s);
                if let Some(old) = nonces.insert(nonce.clone(), what.clone()) {
                    ensure!(old == what, "C16:repeated", "the signature of {what} has the randomness of that of {old}");
                }
            }
        }
    }
    let values = check_fresh(&log, &Arc::new(Mutex::new(vec![])), true)?;
    ctx.add("random values", values as u64);
    ctx.add("signatures", nonces.len() as u64);
    if values >= 8 && n > 1 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{}, {values} values, {} signatures", net.plan.describe(), nonces.len()));
    Ok(())
}

/// The random part of a signature.
fn nonce_of<F: WireFormat>(sig: &serde_json::Value) -> String {
    sig.to_string()
}

// ------------------------------------------------------------------------------------------ example protocols

fn run_examples(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    wide::examples(g, ctx)
}

pub fn all_but(n: usize, i: usize) -> Vec<usize> {
    bits(((1u32 << n) - 1) as u16).filter(|j| *j != i).collect()
}
