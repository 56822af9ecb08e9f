//! Sessions with many parties, for the concurrent drivers; the example protocols.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    time::Duration,
};

use manul::{
    dev::{run_sync, tokio::run_async, BinaryFormat, HumanReadableFormat, TestSessionParams, TestSigner},
    protocol::{
        BoxedRound, CommunicationInfo, EntryPoint, FinalizeOutcome, LocalError, NoMessage, NoProtocolErrors, Protocol,
        ProtocolMessage, ReceiveError, RemoteError, Round, RoundId, RoundInfo, TransitionInfo,
    },
    session::{
        tokio::{par_run_session, run_session, MessageIn, MessageOut},
        Session, SessionId, SessionOutcome,
    },
    signature::Keypair,
};
use manul_example::{simple::SimpleProtocolEntryPoint, simple_chain::DoubleSimpleEntryPoint};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

use crate::{
    drivers::PATIENCE,
    ensure, fail,
    params::*,
    runner::{Ctx, Fail, Res as CaseRes},
    util::{rng_from, Gen},
};

/// Keeps the processing of messages waiting until it is opened.
#[derive(Debug, Default)]
pub struct Gate {
    open: Mutex<bool>,
    wake: Condvar,
    waiting: AtomicUsize,
    passed: AtomicUsize,
}
impl Gate {
    fn pass(&self) {
        self.waiting.fetch_add(1, Ordering::SeqCst);
        let mut open = self.open.lock().unwrap();
        let mut k = 0;
        while !*open && k < 600 {
            open = self.wake.wait_timeout(open, Duration::from_millis(100)).unwrap().0;
            k += 1;
        }
        self.passed.fetch_add(1, Ordering::SeqCst);
    }
    fn set_open(&self) {
        *self.open.lock().unwrap() = true;
        self.wake.notify_all();
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct WideProto;
impl Protocol<Vid> for WideProto {
    type Result = u64;
    type SharedData = ();
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Vid, Self>> {
        (*round_id == 1 || *round_id == 2).then(RoundInfo::new::<WideRound>)
    }
}

#[derive(Debug, Clone)]
pub struct WideEntry {
    to: BTreeSet<Vid>,
    from: BTreeSet<Vid>,
    gate: Option<Arc<Gate>>,
    bad: bool,
    rounds: u8,
}
#[derive(Debug)]
pub struct WideRound {
    e: WideEntry,
    me: Vid,
    num: u8,
    sum: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct WideMsg {
    to: u16,
    bad: bool,
    value: u64,
}
impl EntryPoint<Vid> for WideEntry {
    type Protocol = WideProto;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(
        self,
        _: &mut impl CryptoRngCore,
        _: &[u8],
        id: &Vid,
    ) -> Result<BoxedRound<Vid, WideProto>, LocalError> {
        Ok(BoxedRound::new(WideRound { e: self, me: *id, num: 1, sum: 0 }))
    }
}
fn value(from: Vid, to: Vid, num: u8) -> u64 {
    from.0 as u64 * 1000 + to.0 as u64 + 7 * num as u64
}
impl Round<Vid> for WideRound {
    type Protocol = WideProto;
    type ProtocolError = NoProtocolErrors<Self>;
    type DirectMessage = WideMsg;
    type NormalBroadcast = u64;
    type EchoBroadcast = NoMessage;
    type Payload = u64;
    type Artifact = u64;
    fn transition_info(&self) -> TransitionInfo {
        if self.num == self.e.rounds {
            TransitionInfo::new_linear_terminating(self.num)
        } else {
            TransitionInfo::new_linear(self.num)
        }
    }
    fn communication_info(&self) -> CommunicationInfo<Vid> {
        CommunicationInfo {
            message_destinations: self.e.to.clone(),
            expecting_messages_from: self.e.from.clone(),
            echo_round_participation: manul::protocol::EchoRoundParticipation::Default,
        }
    }
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, to: &Vid) -> Result<(WideMsg, u64), LocalError> {
        Ok((WideMsg { to: to.0, bad: self.e.bad, value: value(self.me, *to, self.num) }, to.0 as u64))
    }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<u64, LocalError> {
        Ok(self.me.0 as u64)
    }
    fn receive_message(&self, from: &Vid, m: ProtocolMessage<Vid, Self>) -> Result<u64, ReceiveError<Vid, Self>> {
        if let Some(gate) = &self.e.gate {
            gate.pass();
        }
        if m.direct_message.bad || m.direct_message.to != self.me.0 || m.normal_broadcast != from.0 as u64 {
            return Err(ReceiveError::Unprovable(RemoteError::new("bad")));
        }
        Ok(m.direct_message.value)
    }
    fn finalize(
        mut self,
        _: &mut impl CryptoRngCore,
        payloads: BTreeMap<Vid, u64>,
        artifacts: BTreeMap<Vid, u64>,
    ) -> Result<FinalizeOutcome<Vid, WideProto>, LocalError> {
        self.sum += payloads.values().sum::<u64>() + artifacts.values().sum::<u64>();
        if self.num == self.e.rounds {
            return Ok(FinalizeOutcome::Result(self.sum));
        }
        self.num += 1;
        Ok(FinalizeOutcome::AnotherRound(BoxedRound::new(self)))
    }
}

/// One party with many peers.
pub fn run(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime");
    let gate = Arc::new(Gate::default());
    let res = rt.block_on(async {
        match tokio::time::timeout(PATIENCE, wide(g, ctx, gate.clone())).await {
            Ok(r) => r,
            Err(_) => Err(Fail::new("C14:stuck", "the driver of the party with many peers does not come to an end")),
        }
    });
    gate.set_open();
    rt.shutdown_background();
    res
}

async fn wide(g: &mut Gen, ctx: &mut Ctx, gate: Arc<Gate>) -> CaseRes {
    type S = SP<Bin>;
    let n = g.range(2, 220);
    let par = g.chance(3, 4);
    let me = Vid(0);
    let all: Vec<Vid> = (1..n as u16).map(Vid).collect();
    let some = |g: &mut Gen| -> BTreeSet<Vid> {
        match g.below(4) {
            0 => BTreeSet::new(),
            1 => all.iter().copied().take(g.below(n)).collect(),
            _ => all.iter().copied().collect(),
        }
    };
    let (to, from) = (some(g), some(g));
    let cancel = g.chance(1, 3);
    // block the processing (only if it is done elsewhere)
    let hold = par && !from.is_empty() && g.chance(1, 2);
    let bad: BTreeSet<Vid> = if g.chance(1, 4) {
        from.iter().copied().filter(|_| g.chance(1, 2)).collect()
    } else {
        BTreeSet::new()
    };
    if !hold {
        gate.set_open();
    }
    let sid = SessionId::from_seed::<S>(b"wide");
    let mut rng = rng_from(g.u64());
    let entry = WideEntry { to: to.clone(), from: from.clone(), gate: Some(gate.clone()), bad: false, rounds: 1 };
    let session = Session::<WideProto, S>::new(&mut rng, sid.clone(), Signer::new(me), entry).map_err(wrap)?;
    let mut incoming = Vec::new();
    for v in &from {
        let entry = WideEntry {
            to: BTreeSet::from([me]),
            from: BTreeSet::new(),
            gate: None,
            bad: bad.contains(v),
            rounds: 1,
        };
        let s = Session::<WideProto, S>::new(&mut rng, sid.clone(), Signer::new(*v), entry).map_err(wrap)?;
        incoming.push(MessageIn { from: *v, message: s.make_message(&mut rng, &me).map_err(wrap)?.0 });
    }
    // everything but the last message in the case of a cancellation, so that it cannot finish before
    let keep = if cancel && !incoming.is_empty() { 1 } else { 0 };
    let cap = [1, 10, 100, 300][g.below(4)];
    let (out_tx, mut out_rx) = mpsc::channel::<MessageOut<S>>(cap);
    let (in_tx, mut in_rx) = mpsc::channel([1, 10, 100, 300][g.below(4)]);
    let token = CancellationToken::new();
    let tok = token.clone();
    let handle = tokio::spawn(async move {
        if par {
            par_run_session(&mut rng, &out_tx, &mut in_rx, tok, session).await
        } else {
            run_session(&mut rng, &out_tx, &mut in_rx, tok, session).await
        }
    });
    let sent = Arc::new(Mutex::new(Vec::<Vid>::new()));
    let sent2 = sent.clone();
    let speed = g.below(3);
    let reader = tokio::spawn(async move {
        while let Some(m) = out_rx.recv().await {
            sent2.lock().unwrap().push(m.to);
            if speed == 0 {
                tokio::task::yield_now().await;
            }
        }
    });
    let total = incoming.len() - keep;
    for m in incoming.drain(..).take(total).collect::<Vec<_>>() {
        if in_tx.send(m).await.is_err() {
            break;
        }
    }
    if hold {
        // wait until all the messages are being processed
        while gate.waiting.load(Ordering::SeqCst) < total && !handle.is_finished() {
            tokio::time::sleep(Duration::from_micros(200)).await;
        }
    }
    if cancel {
        token.cancel();
        for _ in 0..50 {
            tokio::task::yield_now().await;
        }
        if g.chance(1, 2) {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    gate.set_open();
    let report = match handle.await {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => fail!("C14:local-error", "{e:?}"),
        Err(e) => fail!("panic", "the driver panics: {e}"),
    };
    let _ = reader.await;
    let sent = sent.lock().unwrap().clone();
    let set: BTreeSet<Vid> = sent.iter().copied().collect();
    ensure!(set.len() == sent.len(), "C14:sends", "{} messages for {} recipients", sent.len(), set.len());
    let missing: BTreeSet<Vid> = report.missing_messages.values().flatten().copied().collect();
    let cancelled = cancel && keep == 1;
    if cancelled {
        ensure!(
            matches!(report.outcome, SessionOutcome::Terminated),
            "C14:outcome",
            "cancelled while waiting for a message, but ended with {}",
            report.outcome.brief()
        );
        if hold {
            let last: BTreeSet<Vid> = from.iter().copied().rev().take(1).collect();
            ensure!(
                missing == last,
                "C14:missing",
                "{} processed messages ({} parties in total) are reported missing",
                missing.len() as i64 - 1,
                n
            );
        }
    } else {
        ensure!(
            set == to,
            "C14:sends",
            "messages sent to {} parties instead of {} (offloading: {par})",
            set.len(),
            to.len()
        );
        if bad.is_empty() {
            let want: u64 = from.iter().map(|v| value(*v, me, 1)).sum::<u64>() + to.iter().map(|v| v.0 as u64).sum::<u64>();
            match report.outcome {
                SessionOutcome::Result(r) if r == want => {}
                o => fail!("C14:result", "{} instead of {want}", o.brief()),
            }
        } else {
            ensure!(
                matches!(report.outcome, SessionOutcome::NotEnoughMessages),
                "C14:outcome",
                "{} of {} messages are invalid, but it ended with {}",
                bad.len(),
                from.len(),
                report.outcome.brief()
            );
            let errs: BTreeSet<Vid> = report.unprovable_errors.keys().copied().collect();
            ensure!(errs == bad, "C14:errors", "errors of {errs:?} instead of {bad:?}");
        }
    }
    if to.len() > 100 || from.len() > 100 {
        ctx.nontrivial();
        ctx.label(if par { "wide, offloading" } else { "wide" });
    }
    if cancelled && hold && from.len() > 101 {
        ctx.label("cancelled with more than 100 messages in processing");
    }
    if to.len() > 100 && par && (from.is_empty() || cancelled) {
        ctx.label("ended with more than 100 messages to be sent");
    }
    ctx.note(|| {
        format!(
            "{n} parties, {} to, {} from, {} bad, offloading {par}, held back {hold}, cancelled {cancelled}, capacity {cap}",
            to.len(), from.len(), bad.len()
        )
    });
    Ok(())
}

fn wrap(e: LocalError) -> Fail {
    Fail::new("C14:local-error", format!("{e:?}"))
}

/// The asynchronous runner with more than a hundred parties.
pub fn run_wide_async(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    // some parties exchange messages with everybody, the others only with those
    let hubs = g.range(1, 6) as u16;
    let n = hubs + g.range(90, 320) as u16;
    let par = g.chance(1, 4);
    let rounds = g.range(1, 2) as u8;
    let all: BTreeSet<Vid> = (0..n).map(Vid).collect();
    let first = g.chance(1, 2);
    let is_hub = |v: &Vid| if first { v.0 < hubs } else { v.0 >= n - hubs };
    let peers = |v: &Vid| -> BTreeSet<Vid> { all.iter().copied().filter(|w| w != v && (is_hub(v) || is_hub(w))).collect() };
    let eps: Vec<(Signer, WideEntry)> = all
        .iter()
        .map(|v| (Signer::new(*v), WideEntry { to: peers(v), from: peers(v), gate: None, bad: false, rounds }))
        .collect();
    let mut rng = rng_from(g.u64());
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime");
    let res = rt
        .block_on(async { tokio::time::timeout(2 * PATIENCE, run_async::<WideEntry, SP<Bin>>(&mut rng, eps, par)).await });
    rt.shutdown_background();
    let res = match res {
        Ok(r) => r.map_err(wrap)?,
        Err(_) => fail!("C14:stuck", "the runner with {n} parties does not come to an end (offloading: {par})"),
    };
    ensure!(res.reports.len() == n as usize, "C14:reports", "{} reports for {n} parties", res.reports.len());
    for (v, rep) in &res.reports {
        let mut want = 0;
        for num in 1..=rounds {
            want += peers(v).iter().map(|w| value(*w, *v, num) + w.0 as u64).sum::<u64>();
        }
        match &rep.outcome {
            SessionOutcome::Result(r) if *r == want => {}
            o => fail!("C14:result", "{v:?}: {} instead of {want}", o.brief()),
        }
    }
    ctx.nontrivial();
    ctx.note(|| format!("{n} parties, {hubs} of them talk to everybody, offloading {par}, {rounds} rounds"));
    Ok(())
}

/// The example protocols: the sum of the positions of all parties, twice.
pub fn examples(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let n = g.range(1, 16);
    let mut ids: Vec<u8> = Vec::new();
    while ids.len() < n {
        let x = g.below(256) as u8;
        if !ids.contains(&x) {
            ids.push(x);
        } else {
            ids.push((0..=255).find(|y| !ids.contains(y)).unwrap());
        }
    }
    let signers: Vec<TestSigner> = ids.iter().map(|i| TestSigner::new(*i)).collect();
    let all: BTreeSet<_> = signers.iter().map(|s| s.verifying_key()).collect();
    let want = (n * (n - 1)) as u8;
    let mut rng = rng_from(g.u64());
    let kind = g.below(6);
    macro_rules! check {
        ($res:expr) => {{
            let res = $res;
            let res = match res {
                Ok(r) => r,
                Err(e) => fail!("C18:example", "{e:?}"),
            };
            ensure!(
                res.reports.keys().copied().collect::<BTreeSet<_>>() == all,
                "C18:example",
                "the reports are not those of all {n} parties"
            );
            for rep in res.reports.values() {
                ensure!(
                    rep.provable_errors.is_empty() && rep.unprovable_errors.is_empty() && rep.missing_messages.is_empty(),
                    "C18:example",
                    "errors in an example: {}",
                    rep.brief()
                );
            }
            match res.results() {
                Ok(r) => ensure!(
                    r.len() == n && r.values().all(|x| *x == want),
                    "C18:example",
                    "example {kind} with {n} parties gives {r:?} instead of {want}"
                ),
                Err(e) => fail!("C18:example", "example {kind} with {n} parties: {e}"),
            }
        }};
    }
    macro_rules! eps {
        ($e:ident) => {
            signers.iter().map(|s| (*s, $e::new(all.clone()))).collect::<Vec<_>>()
        };
    }
    macro_rules! go {
        ($e:ident, $f:ident, $a:expr) => {{
            if $a {
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime");
                let par = g.chance(1, 2);
                let res = rt.block_on(async {
                    tokio::time::timeout(PATIENCE, run_async::<_, TestSessionParams<$f>>(&mut rng, eps!($e), par)).await
                });
                rt.shutdown_background();
                match res {
                    Ok(r) => check!(r),
                    Err(_) => fail!("C18:example", "the runner does not come to an end"),
                }
            } else {
                check!(run_sync::<_, TestSessionParams<$f>>(&mut rng, eps!($e)))
            }
        }};
    }
    match kind {
        0 => go!(SimpleProtocolEntryPoint, BinaryFormat, false),
        1 => go!(SimpleProtocolEntryPoint, HumanReadableFormat, false),
        2 => go!(DoubleSimpleEntryPoint, BinaryFormat, false),
        3 => go!(DoubleSimpleEntryPoint, HumanReadableFormat, false),
        4 => go!(SimpleProtocolEntryPoint, BinaryFormat, true),
        _ => go!(DoubleSimpleEntryPoint, HumanReadableFormat, true),
    }
    if n > 1 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("example {kind}, {n} parties"));
    Ok(())
}
