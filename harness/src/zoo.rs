//! Sessions whose identifiers, signatures and messages are of all kinds of types, including ones without any data.
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
    marker::PhantomData,
    sync::Arc,
};

use manul::{
    dev::run_sync,
    digest::Digest,
    protocol::{
        BoxedRound, CommunicationInfo, EntryPoint, FinalizeOutcome, LocalError, NoArtifact, NoMessage, NoProtocolErrors, Protocol,
        ProtocolMessage, ReceiveError, RemoteError, Round, RoundId, RoundInfo, TransitionInfo,
    },
    session::{
        CanFinalize, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId, SessionOutcome,
        SessionParameters, SessionReport, WireFormat,
    },
    signature::{self, DigestVerifier, Keypair, RandomizedDigestSigner},
    utils::SerializableMap,
};
use rand_core::{CryptoRngCore, RngCore};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sha3::{Sha3_256, Sha3_512};

use crate::{
    ensure, fail,
    runner::{Ctx, Fail},
    trips::rewire,
    util::{rng_from, Gen, H},
    with_format,
};

// --- identities and signatures of no fixed size

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Name {
    Number(u8),
    Text(String),
    Pair { a: i64, b: Vec<u8> },
    Nobody,
}
fn name(x: u64) -> Name {
    match x % 4 {
        0 => Name::Number(x as u8),
        1 => Name::Text(format!("node \"{x}\"\n\u{1F980}")),
        2 => Name::Pair { a: x as i64, b: x.to_be_bytes().to_vec() },
        _ => Name::Nobody,
    }
}
#[derive(Clone, Debug)]
pub struct Pen(Name);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Seal {
    Short(u64, Vec<u8>),
    Long { nonce: u64, mac: Vec<u8>, padding: String },
}
fn mac(id: &Name, nonce: u64, digest: &[u8]) -> Vec<u8> {
    let id = postcard::to_allocvec(id).unwrap();
    Sha3_256::new().chain_update([id.len() as u8]).chain_update(id).chain_update(nonce.to_be_bytes()).chain_update(digest).finalize().to_vec()
}
impl<D: Digest> RandomizedDigestSigner<D, Seal> for Pen {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: D) -> Result<Seal, signature::Error> {
        let nonce = rng.next_u64();
        let mac = mac(&self.0, nonce, &digest.finalize());
        Ok(if nonce % 2 == 0 {
            Seal::Short(nonce, mac)
        } else {
            Seal::Long { nonce, mac, padding: "x".repeat((nonce >> 8) as usize % 300) }
        })
    }
}
impl Keypair for Pen {
    type VerifyingKey = Name;
    fn verifying_key(&self) -> Name {
        self.0.clone()
    }
}
impl<D: Digest> DigestVerifier<D, Seal> for Name {
    fn verify_digest(&self, digest: D, s: &Seal) -> Result<(), signature::Error> {
        let (nonce, m) = match s {
            Seal::Short(nonce, m) => (*nonce, m),
            Seal::Long { nonce, mac, .. } => (*nonce, mac),
        };
        if *m == mac(self, nonce, &digest.finalize()) {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Zp<F>(PhantomData<F>);
impl<F: WireFormat> SessionParameters for Zp<F> {
    type Signer = Pen;
    type Verifier = Name;
    type Signature = Seal;
    type Digest = Sha3_512;
    type WireFormat = F;
}

// --- values

trait Val: 'static + Clone + Debug + PartialEq + Send + Sync + Serialize + DeserializeOwned {
    fn make(x: u64) -> Self;
}
macro_rules! val {
    ($t:ty, $x:ident => $e:expr) => {
        impl Val for $t {
            fn make($x: u64) -> Self {
                $e
            }
        }
    };
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Signal;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Hollow {}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Wrap(u64);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Choice {
    Nothing,
    One(u8),
    Two(String, i32),
    Named { x: Option<u16>, y: Vec<Choice> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Mixed {
    a: bool,
    b: char,
    c: f32,
    d: (i8, u16, i64),
    e: Option<Box<Mixed>>,
    f: BTreeMap<u16, String>,
    g: SerializableMap<u8, Vec<u16>>,
    h: [u8; 5],
    i: u64,
}
fn text(x: u64) -> String {
    match x % 4 {
        0 => String::new(),
        1 => "\"\\\u{0}\u{7f}{}[],:".into(),
        2 => "\u{1F980}\u{E9}\u{0301}".into(),
        _ => "a".repeat(x as usize % 400),
    }
}
fn mixed(x: u64, deep: bool) -> Mixed {
    Mixed {
        a: x % 2 == 0,
        b: ['a', '\u{0}', '\u{1F980}', '"'][x as usize % 4],
        c: (x % 1000) as f32 / 8.0,
        d: (x as i8, x as u16, x as i64),
        e: (deep && x % 3 == 0).then(|| Box::new(mixed(x / 3, false))),
        f: (0..x % 4).map(|k| ((x >> k) as u16, text(x >> k))).collect(),
        g: (0..(x >> 3) % 5).map(|k| ((x >> k) as u8, vec![x as u16; k as usize])).collect(),
        h: [0, 1, x as u8, 3, 4],
        i: if x % 5 == 0 { u64::MAX } else { x },
    }
}
fn choice(x: u64, depth: u64) -> Choice {
    match x % 4 {
        0 => Choice::Nothing,
        1 => Choice::One((x >> 2) as u8),
        2 => Choice::Two(text(x >> 2), (x >> 3) as i32),
        _ => Choice::Named {
            x: (x % 8 == 3).then_some(x as u16),
            y: if depth > 2 { vec![] } else { (0..(x >> 4) % 3).map(|k| choice(x.wrapping_mul(31) >> k, depth + 1)).collect() },
        },
    }
}
val!((), _x => ());
val!(Signal, _x => Signal);
val!(Hollow, _x => Hollow {});
val!(Wrap, x => Wrap(x));
val!(bool, x => x % 2 == 0);
val!(String, x => text(x));
val!(Vec<u8>, x => x.to_be_bytes()[..(x % 9).min(8) as usize].to_vec());
val!(Vec<()>, x => vec![(); x as usize % 5]);
val!(Option<u32>, x => (x % 2 == 0).then_some(x as u32));
val!((Signal, ()), _x => (Signal, ()));
val!(Choice, x => choice(x, 0));
val!(Mixed, x => mixed(x, true));
const TYPES: u8 = 12;

// --- the protocol

#[derive(Clone, Debug)]
pub struct Zoo {
    ids: Arc<BTreeSet<Name>>,
    me: Name,
    seed: u64,
    /// The numbers of the rounds
    seq: Arc<Vec<u8>>,
    at: usize,
    made: Vec<String>,
    wrong: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct ZooStart {
    ids: Arc<BTreeSet<Name>>,
    seed: u64,
    seq: Arc<Vec<u8>>,
}
/// Direct messages and normal broadcasts
#[derive(Debug)]
struct ByMail<T>(Zoo, PhantomData<fn() -> T>);
/// Echo broadcasts only
#[derive(Debug)]
struct Aloud<T>(Zoo, PhantomData<fn() -> T>);
/// Everything
#[derive(Debug)]
struct Full<T>(Zoo, PhantomData<fn() -> T>);
#[derive(Debug, Serialize, Deserialize)]
pub struct ZooProto;
type CaseRes = Result<(), Fail>;
/// Everything that went wrong, and in how many rounds.
type Outcome = (usize, Vec<String>);

impl Zoo {
    fn val(&self, from: &Name, to: Option<&Name>, what: u8) -> u64 {
        let to = to.map(|to| postcard::to_allocvec(to).unwrap()).unwrap_or_default();
        H::new("zoo").u(self.seed).u(self.at as u64).b(&postcard::to_allocvec(from).unwrap()).b(&to).b(&[what]).f()
    }
    fn others(&self) -> BTreeSet<Name> {
        self.ids.iter().filter(|id| **id != self.me).cloned().collect()
    }
    fn boxed(self) -> BoxedRound<Name, ZooProto> {
        macro_rules! pick {
            ($num:expr, $zoo:expr, $($k:literal: $t:ty,)*) => {
                match $num {
                    $(
                        n if n == 3 * $k => BoxedRound::new(ByMail::<$t>($zoo, PhantomData)),
                        n if n == 3 * $k + 1 => BoxedRound::new(Aloud::<$t>($zoo, PhantomData)),
                        n if n == 3 * $k + 2 => BoxedRound::new(Full::<$t>($zoo, PhantomData)),
                    )*
                    _ => unreachable!(),
                }
            };
        }
        let num = (self.seq[self.at] - 1) % (3 * TYPES);
        pick!(num, self, 0: (), 1: Signal, 2: Hollow, 3: Wrap, 4: bool, 5: String, 6: Vec<u8>, 7: Vec<()>,
            8: Option<u32>, 9: (Signal, ()), 10: Choice, 11: Mixed,)
    }
}

impl Protocol<Name> for ZooProto {
    type Result = Outcome;
    type SharedData = ();
    fn round_info(_: &RoundId) -> Option<RoundInfo<Name, Self>> {
        None
    }
}
thread_local! {
    static FIRST: std::cell::Cell<u8> = const { std::cell::Cell::new(1) };
}
impl EntryPoint<Name> for ZooStart {
    type Protocol = ZooProto;
    fn entry_round_id() -> RoundId {
        RoundId::new(FIRST.get())
    }
    fn make_round(
        self,
        _: &mut impl CryptoRngCore,
        _: &[u8],
        id: &Name,
    ) -> Result<BoxedRound<Name, ZooProto>, LocalError> {
        let ZooStart { ids, seed, seq } = self;
        Ok(Zoo { ids, me: id.clone(), seed, seq, at: 0, made: vec![], wrong: vec![] }.boxed())
    }
}

/// The payloads: how the message looked like, or an error.
#[derive(Debug)]
struct Seen<T>(T, bool);

impl Zoo {
    fn info(&self) -> TransitionInfo {
        let one = |at: usize| self.seq.get(at).map(|n| RoundId::new(*n)).into_iter().collect::<BTreeSet<_>>();
        TransitionInfo {
            id: RoundId::new(self.seq[self.at]),
            parents: if self.at > 0 { one(self.at - 1) } else { BTreeSet::new() },
            siblings: BTreeSet::new(),
            children: one(self.at + 1),
            may_produce_result: self.at + 1 == self.seq.len(),
        }
    }
    fn make<T: Val>(&self, to: Option<&Name>, what: u8) -> T {
        T::make(self.val(&self.me, to, what))
    }
    fn is<T: Val>(&self, from: &Name, to: Option<&Name>, what: u8, x: &T) -> Option<String> {
        (*x != T::make(self.val(from, to, what))).then(|| format!("part {what} from {from:?}: {x:?}"))
    }
    fn finish(
        mut self,
        payloads: BTreeMap<Name, Option<String>>,
        artifacts: BTreeMap<Name, Option<String>>,
        direct: bool,
    ) -> Result<FinalizeOutcome<Name, ZooProto>, LocalError> {
        let others = self.others();
        let num = self.seq[self.at];
        for (what, who) in [("payloads", payloads.keys()), ("artifacts", artifacts.keys())] {
            let who: BTreeSet<_> = who.cloned().collect();
            if who != others && (direct || what == "payloads") {
                self.wrong.push(format!("round {num} got {what} of {who:?}"));
            }
        }
        let all = payloads.into_values().chain(artifacts.into_values()).flatten();
        self.wrong.extend(all.map(|w| format!("round {num} got {w}")));
        self.at += 1;
        Ok(if self.at == self.seq.len() {
            FinalizeOutcome::Result((self.at, self.wrong))
        } else {
            FinalizeOutcome::AnotherRound(self.boxed())
        })
    }
}

macro_rules! shape {
    (@type 1, $t:ty) => { $t };
    (@type 0, $t:ty) => { NoMessage };
    (@art 1, $t:ty) => { Keep<$t> };
    (@art 0, $t:ty) => { NoArtifact };
    (@is 1, $z:expr, $from:expr, $to:expr, $what:expr, $x:expr) => { $z.is::<T>($from, $to, $what, &$x) };
    (@is 0, $z:expr, $from:expr, $to:expr, $what:expr, $x:expr) => { { let _: NoMessage = $x; None::<String> } };
    (@make 1 0) => {
        fn make_direct_message(&self, _: &mut impl CryptoRngCore, to: &Name) -> Result<(T, Keep<T>), LocalError> {
            let x: T = self.0.make(Some(to), 0);
            Ok((x.clone(), Keep(to.clone(), x)))
        }
    };
    (@make 1 1) => {
        fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<T, LocalError> {
            Ok(self.0.make(None, 1))
        }
    };
    (@make 1 2) => {
        fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<T, LocalError> {
            Ok(self.0.make(None, 2))
        }
    };
    (@make 0 $k:tt) => {};
    (@arts 1, $z:expr, $arts:expr) => {
        $arts
            .into_iter()
            .map(|(to, Keep(whose, x))| {
                let wrong = (whose != to || x != $z.make(Some(&to), 0)).then(|| format!("{x:?} for {whose:?} as the artifact for {to:?}"));
                (to, wrong)
            })
            .collect()
    };
    (@arts 0, $z:expr, $arts:expr) => { $arts.into_keys().map(|to| (to, None)).collect() };
    ($name:ident, $d:tt $e:tt $n:tt) => {
        impl<T: Val> Round<Name> for $name<T> {
            type Protocol = ZooProto;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = shape!(@type $d, T);
            type EchoBroadcast = shape!(@type $e, T);
            type NormalBroadcast = shape!(@type $n, T);
            type Payload = Option<String>;
            type Artifact = shape!(@art $d, T);
            fn transition_info(&self) -> TransitionInfo {
                self.0.info()
            }
            fn communication_info(&self) -> CommunicationInfo<Name> {
                CommunicationInfo::regular(&self.0.others())
            }
            shape!(@make $d 0);
            shape!(@make $e 1);
            shape!(@make $n 2);
            fn receive_message(
                &self,
                from: &Name,
                m: ProtocolMessage<Name, Self>,
            ) -> Result<Option<String>, ReceiveError<Name, Self>> {
                if !self.0.ids.contains(from) {
                    return Err(RemoteError::new("Who is it?").into());
                }
                let z = &self.0;
                let wrong = [
                    shape!(@is $d, z, from, Some(&z.me), 0, m.direct_message),
                    shape!(@is $e, z, from, None, 1, m.echo_broadcast),
                    shape!(@is $n, z, from, None, 2, m.normal_broadcast),
                ];
                Ok(wrong.into_iter().flatten().next())
            }
            fn finalize(
                self,
                _: &mut impl CryptoRngCore,
                payloads: BTreeMap<Name, Self::Payload>,
                artifacts: BTreeMap<Name, Self::Artifact>,
            ) -> Result<FinalizeOutcome<Name, ZooProto>, LocalError> {
                let artifacts: BTreeMap<Name, Option<String>> = shape!(@arts $d, self.0, artifacts);
                self.0.finish(payloads, artifacts, $d == 1)
            }
        }
    };
}
/// Whose artifact this is, and what was sent.
#[derive(Debug)]
struct Keep<T>(Name, T);
shape!(ByMail, 1 0 1);
shape!(Aloud, 0 1 0);
shape!(Full, 1 1 1);

// --- the check

struct Live<F: WireFormat> {
    session: Session<ZooProto, Zp<F>>,
    accum: RoundAccumulator<ZooProto, Zp<F>>,
    todo: Vec<Name>,
}
impl<F: WireFormat> Live<F> {
    fn new(session: Session<ZooProto, Zp<F>>) -> Self {
        Live { accum: session.make_accumulator(), todo: session.message_destinations().iter().cloned().collect(), session }
    }
}

pub fn run(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let fmt = g.below(4);
    with_format!(fmt, F => run_with::<F>(g, ctx, fmt, false))
}
pub fn run_sync_only(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let fmt = g.below(4);
    let name = |f: Fail| Fail { kind: "C18:zoo".into(), ..f };
    with_format!(fmt, F => run_with::<F>(g, ctx, fmt, true)).map_err(name)
}

fn run_with<F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, fmt: usize, runner: bool) -> CaseRes {
    let n = g.range(1, 4);
    let ids: BTreeSet<Name> = (0..n).map(|_| name(g.below(1000) as u64)).collect();
    let ids = Arc::new(ids);
    let len = g.range(1, 4);
    let seq: Vec<u8> = (0..len).map(|k| 1 + k as u8 * 3 * TYPES + g.below(3 * TYPES as usize) as u8).collect();
    let seq = Arc::new(seq);
    FIRST.set(seq[0]);
    let start = ZooStart { ids: ids.clone(), seed: g.u64(), seq: seq.clone() };
    let seed = g.u64();
    let what = format!("format {fmt}, {ids:?}, rounds {seq:?}");
    ctx.note(|| what.clone());
    let reports = if runner {
        let eps = ids.iter().map(|id| (Pen(id.clone()), start.clone())).collect();
        match run_sync::<_, Zp<F>>(&mut rng_from(seed), eps) {
            Ok(res) => res.reports,
            Err(e) => fail!("C18:zoo", "the runner fails: {e:?}; {what}"),
        }
    } else {
        stepwise::<F>(g, &ids, &start, seed)?
    };
    ensure!(reports.len() == ids.len(), "C01:zoo", "{} reports; {what}", reports.len());
    for (id, report) in reports {
        let clean = report.provable_errors.is_empty() && report.unprovable_errors.is_empty();
        ensure!(clean && report.missing_messages.is_empty(), "C01:zoo", "{id:?} complains: {}; {what}", report.brief());
        match report.outcome {
            SessionOutcome::Result((rounds, wrong)) => {
                ensure!(wrong.is_empty(), "C02:zoo", "{id:?}: {}; {what}", wrong.join("; "));
                ensure!(rounds == seq.len(), "C01:zoo", "{id:?}: {rounds} rounds; {what}");
            }
            _ => fail!("C01:zoo", "{id:?} has not finished; {what}"),
        }
    }
    ctx.add("rounds", seq.len() as u64);
    if ids.len() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

#[allow(clippy::type_complexity)]
fn stepwise<F: WireFormat>(
    g: &mut Gen,
    ids: &BTreeSet<Name>,
    start: &ZooStart,
    seed: u64,
) -> Result<BTreeMap<Name, SessionReport<ZooProto, Zp<F>>>, Fail> {
    let mut rng = rng_from(seed);
    let sid = SessionId::from_seed::<Zp<F>>(&rng.next_u64().to_be_bytes());
    let local = |e: LocalError, what: &str| Fail::new("C01:zoo", format!("{what}: {e:?}"));
    let mut live: BTreeMap<Name, Live<F>> = BTreeMap::new();
    for id in ids {
        let session = Session::new(&mut rng, sid.clone(), Pen(id.clone()), start.clone()).map_err(|e| local(e, "new"))?;
        live.insert(id.clone(), Live::new(session));
    }
    let mut wires: Vec<(Name, Name, Message<Name>)> = vec![];
    let mut reports = BTreeMap::new();
    loop {
        // What can be done
        let mut todo: Vec<(u8, Name, usize)> = vec![];
        for (id, l) in &live {
            (0..l.todo.len()).for_each(|k| todo.push((0, id.clone(), k)));
            if l.todo.is_empty() && l.session.can_finalize(&l.accum) != CanFinalize::NotYet {
                todo.push((1, id.clone(), 0));
            }
        }
        for (k, (_, to, _)) in wires.iter().enumerate() {
            // A message to someone who has finished is of no use
            if live.contains_key(to) {
                todo.push((2, to.clone(), k));
            }
        }
        if todo.is_empty() {
            break;
        }
        let (what, id, k) = g.pick(&todo).clone();
        let mut l = live.remove(&id).unwrap();
        match what {
            0 => {
                let to = l.todo.remove(k);
                let (m, art) = l.session.make_message(&mut rng, &to).map_err(|e| local(e, "make_message"))?;
                l.session.add_artifact(&mut l.accum, art).map_err(|e| local(e, "add_artifact"))?;
                ensure!(*m.destination() == to, "C02:zoo", "a message for {to:?} is marked as one for {:?}", m.destination());
                wires.push((id.clone(), to, m));
            }
            1 => {
                if l.session.can_finalize(&l.accum) == CanFinalize::Never {
                    let report = l.session.terminate_due_to_errors(l.accum).map_err(|e| local(e, "terminate"))?;
                    reports.insert(id, report);
                    continue;
                }
                match l.session.finalize_round(&mut rng, l.accum).map_err(|e| local(e, "finalize_round"))? {
                    RoundOutcome::Finished(report) => {
                        reports.insert(id, report);
                        continue;
                    }
                    RoundOutcome::AnotherRound { session, cached_messages } => {
                        l = Live::new(*session);
                        for m in cached_messages {
                            let p = l.session.process_message(m);
                            l.session.add_processed_message(&mut l.accum, p).map_err(|e| local(e, "add_processed"))?;
                        }
                    }
                }
            }
            _ => {
                let (from, _, m) = wires.remove(k);
                let m = if g.chance(1, 2) { rewire(&m, g.below(4), "a message")? } else { m };
                let pre = l.session.preprocess_message(&mut l.accum, &from, m).map_err(|e| local(e, "preprocess"))?;
                match pre {
                    PreprocessOutcome::ToProcess(m) => {
                        let p = l.session.process_message(*m);
                        l.session.add_processed_message(&mut l.accum, p).map_err(|e| local(e, "add_processed"))?;
                    }
                    PreprocessOutcome::Cached => (),
                    PreprocessOutcome::Error(e) => fail!("C01:zoo", "a message from {from:?} to {id:?} is refused: {e:?}"),
                }
            }
        }
        live.insert(id, l);
    }
    for (id, l) in live {
        reports.insert(id, l.session.terminate(l.accum).map_err(|e| local(e, "terminate"))?);
    }
    Ok(reports)
}
