//! What is put on the wire comes back unchanged (C15).
use std::{cmp::Ordering, collections::BTreeMap, fmt::Debug, sync::Arc};

use manul::{
    dev::{run_sync, BinaryFormat, HumanReadableFormat},
    protocol::{
        BoxedRound, CommunicationInfo, EchoRoundParticipation, EntryPoint, FinalizeOutcome, LocalError,
        NoProtocolErrors, Protocol, ProtocolMessage, ReceiveError, Round, RoundId, RoundInfo, TransitionInfo,
    },
    session::{Evidence, SessionOutcome, WireFormat},
    utils::SerializableMap,
};
use rand_core::CryptoRngCore;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::{
    byz::{gen_twist, scene, ByzKnobs, BYZ},
    chain::*,
    ensure, fail,
    net::{Plan, St},
    params::{de, Bin, FixedFormat, Json, Signer, TreeFormat, Vid, SP},
    proto::*,
    runner::{facet, guarded, Check, Ctx, Fail},
    steps::*,
    util::{rng_from, Gen},
    wire::{hex, msg_from, mutate, paths, at_mut, to_v},
    with_format, with_both,
};

type CaseRes = Result<(), Fail>;

pub fn checks() -> Vec<Check> {
    fn k4(n: usize) -> Knobs {
        Knobs { nmax: 4, stages: n, ..KNOBS }
    }
    vec![Check {
        id: "C15",
        rule: "a case is a generated run in which everything is serialized and deserialized on its way (compared with \
               the run without), or the evidence of a generated network with lying parties (genuine and garbled), or \
               the identifiers of a run, or contents of messages of random types, or a generated map; it is \
               non-trivial if at least one message, piece of evidence, identifier, or non-empty map made the round trip",
        assumptions: &["the format itself keeps values of the serde data model that are used"],
        kinds: &["C15", "panic", "hang"],
        facets: vec![
            facet("messages", 20000, |g, c| run_sessions(g, c, &[0], k4(4))),
            facet("messages-chained", 8000, |g, c| run_sessions(g, c, &[1, 2, 3, 4], k4(2))),
            facet("messages-deep", 2500, |g, c| run_sessions(g, c, &[5, 6], k4(1))),
            facet("garbled-messages", 8000, run_garbled),
            facet("evidence", 15000, |g, c| run_evidence(g, c, &[0, 0, 0, 1])),
            facet("evidence-chained", 6000, |g, c| run_evidence(g, c, &[2, 3, 4])),
            facet("contents", 12000, run_contents),
            facet("maps", 60000, run_maps),
            facet("message-types", 10000, crate::zoo::run),
        ],
    }]
}

// ------------------------------------------------------------------------------------------------ round trips

fn back<T: Serialize + DeserializeOwned>(x: &T, how: usize) -> (Vec<u8>, Result<T, String>, &'static str) {
    fn with<F: WireFormat, T: Serialize + DeserializeOwned>(x: &T, name: &'static str) -> (Vec<u8>, Result<T, String>, &'static str) {
        let b = match F::serialize(x) {
            Ok(b) => b,
            Err(e) => return (vec![], Err(e.to_string()), name),
        };
        let y = de::<F, T>(&b);
        (b.into(), y, name)
    }
    match how % 7 {
        0 => with::<BinaryFormat, T>(x, "binary"),
        1 => with::<HumanReadableFormat, T>(x, "human readable"),
        2 => with::<TreeFormat, T>(x, "value tree"),
        3 => with::<FixedFormat, T>(x, "bincode"),
        4 => {
            // nothing can be borrowed from the input
            let b = serde_json::to_vec_pretty(x).unwrap_or_default();
            let y = serde_json::from_reader(&b[..]).map_err(|e| e.to_string());
            (b, y, "JSON reader")
        }
        5 => {
            let b = bincode::serialize(x).unwrap_or_default();
            let y = bincode::deserialize_from(&b[..]).map_err(|e| e.to_string());
            (b, y, "bincode reader")
        }
        _ => {
            let b = postcard::to_allocvec(x).unwrap_or_default();
            let y = postcard::take_from_bytes::<T>(&b).map_err(|e| e.to_string()).and_then(|(y, rest)| {
                if rest.is_empty() { Ok(y) } else { Err(format!("{} bytes are left", rest.len())) }
            });
            (b, y, "postcard")
        }
    }
}

/// Serializes and deserializes in one of the formats.
pub fn rewire<T: Serialize + DeserializeOwned>(x: &T, how: usize, what: &str) -> Result<T, Fail> {
    let (b, y, name) = back(x, how);
    let y = match y {
        Ok(y) => y,
        Err(e) => fail!("C15:refused", "{what} is not accepted back in the {name} format: {e}; {}", hex(&b)),
    };
    let b2 = back(&y, how).0;
    ensure!(b == b2, "C15:bytes", "{what} is serialized differently after a round trip in the {name} format: {} / {}", hex(&b), hex(&b2));
    // also as seen by the other formats
    let (b, b2) = (back(x, how + 1).0, back(&y, how + 1).0);
    ensure!(b == b2, "C15:bytes", "{what} is different after a round trip in the {name} format: {} / {}", hex(&b), hex(&b2));
    Ok(y)
}

// ------------------------------------------------------------------------------------------------ sessions

fn tape(g: &mut Gen, max: usize) -> Vec<u32> {
    let len = g.below(max);
    (0..len).map(|_| g.below(1 << 16) as u32).collect()
}

fn run_sessions(g: &mut Gen, ctx: &mut Ctx, trees: &[usize], k: Knobs) -> CaseRes {
    let tree = *g.pick(trees);
    let fmt = g.below(4);
    macro_rules! deep {
        ($T:ty) => {{
            let cfgs = gen_cfgs(g, <$T>::LEAVES, k);
            if fmt % 2 == 0 {
                sessions::<$T, Bin>(g, ctx, cfgs)
            } else {
                sessions::<$T, Json>(g, ctx, cfgs)
            }
        }};
    }
    match tree {
        5 => deep!(T6L),
        6 => deep!(T6R),
        _ => {
            let cfgs = gen_cfgs(g, leaves(tree), k);
            with_both!(tree, fmt, T, F => sessions::<T, F>(g, ctx, cfgs))
        },
    }
}

fn sessions<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let mut twists: Vec<Vec<Vec<Twist>>> = vec![vec![vec![]; cfgs.len()]; n];
    if g.chance(1, 2) {
        let (i, l) = (g.below(n), g.below(cfgs.len()));
        twists[i][l].push(gen_twist(g, &cfgs[l]));
    }
    let seed = g.u64();
    let tape = tape(g, 60);
    let sid = g.bytes(12);
    let mut setup =
        Setup { plan: &plan, sid: &sid, seed, tape: &tape, misuse: 0, misuse_tape: &[], kind: "C15:misuse", wire: false };
    let (log_a, log_b) = (Log::default(), Log::default());
    let a = simulate::<T, F>(&setup, |i| T::build(&cfgs, &log_a, &twists[i]))?;
    setup.wire = true;
    let b = simulate::<T, F>(&setup, |i| T::build(&cfgs, &log_b, &twists[i]))?;
    let story = || format!("{}, deviations {twists:?}", plan.describe());
    if let Some(d) = differ(&a.obs, &b.obs) {
        fail!("C15:behaviour", "without and with round trips: {d}; {}", story());
    }
    if let Some(d) = differ(&log_a.get(), &log_b.get()) {
        fail!("C15:behaviour", "calls of the rounds without and with round trips: {d}; {}", story());
    }
    let mut messages = 0;
    let mut ids: Vec<RoundId> = (0..3).map(|_| RoundId::new(g.below(256) as u8)).collect();
    for o in &b.obs {
        match o {
            Obs::Pre { .. } => messages += 1,
            Obs::Enter { id, .. } => ids.push(id.clone()),
            _ => (),
        }
    }
    ids.dedup();
    round_ids(g, &ids)?;
    let shared = T::shared(&cfgs);
    let mut evs = 0;
    for (_, e) in b.reports.iter().flatten().flat_map(|r| &r.provable_errors) {
        evs += 1;
        evidence::<T::Protocol, F>(e, &shared, g.below(7), true)?;
    }
    ctx.add("messages", messages);
    ctx.add("round IDs", ids.len() as u64);
    ctx.add("evidence", evs);
    if messages > 0 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{}, {messages} messages, {evs} pieces of evidence", plan.describe()));
    Ok(())
}

fn round_ids(g: &mut Gen, ids: &[RoundId]) -> CaseRes {
    let how = g.below(7);
    let again: Vec<RoundId> = ids.iter().map(|r| rewire(r, how, "round ID")).collect::<Result<_, _>>()?;
    for (i, a) in ids.iter().enumerate() {
        ensure!(a == &again[i] && a.cmp(&again[i]) == Ordering::Equal, "C15:id", "{a:?} became {:?}", again[i]);
        ensure!(a.to_string() == again[i].to_string(), "C15:id", "{a} became {}", again[i]);
        for (j, b) in ids.iter().enumerate() {
            let same = (a == b, a.cmp(b));
            ensure!((&again[i] == b, again[i].cmp(b)) == same && (a == &again[j], a.cmp(&again[j])) == same, "C15:id", "{a:?} and {b:?} compare differently after a round trip");
            let bytes = back(a, how).0 == back(b, how).0;
            ensure!(bytes == (a == b), "C15:id", "{a:?} and {b:?} are serialized the same or unlike each other: {bytes}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ messages and evidence

fn run_garbled(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let fmt = g.below(4);
    let cfg = Arc::new(gen_cfg(g, Knobs { nmin: 2, nmax: 3, stages: 2, ..KNOBS }));
    with_format!(fmt, F => {
        let cfgs = vec![cfg.clone()];
        set_entry_nums(&cfgs);
        let plan = Plan::new(cfgs.clone());
        let log = Log::default();
        let sid = g.bytes(4);
        let setup = Setup { plan: &plan, sid: &sid, seed: 5, tape: &[], misuse: 0, misuse_tape: &[], kind: "C15:misuse", wire: false };
        let sim = simulate::<T1, F>(&setup, |_| T1::build(&cfgs, &log, &[]))?;
        let msgs: Vec<&Vec<u8>> = sim.obs.iter().filter_map(|o| match o { Obs::Made { msg, .. } => Some(msg), _ => None }).collect();
        if msgs.is_empty() {
            return Ok(());
        }
        let mut parsed = 0;
        for _ in 0..8 {
            let m = de::<F, manul::session::Message<Vid>>(g.pick(&msgs)).map_err(|e| Fail::new("C15:refused", e))?;
            let mut v = to_v(&m);
            for _ in 0..g.below(4) {
                let ps = paths(&v, true);
                let p = g.pick(&ps).clone();
                mutate(g, at_mut(&mut v, &p).unwrap(), false);
            }
            let Some(m2) = msg_from(&v) else { continue };
            parsed += 1;
            let m3 = rewire(&m2, g.below(7), "garbled message")?;
            ensure!(m3.destination() == m2.destination(), "C15:behaviour", "destination of a message changed");
        }
        ctx.add("messages", parsed);
        if parsed > 0 {
            ctx.nontrivial();
        }
        ctx.note(|| format!("{}, {parsed} messages", plan.describe()));
        Ok(())
    })
}

fn evidence<P, F>(e: &Evidence<P, SP<F>>, shared: &P::SharedData, how: usize, genuine: bool) -> CaseRes
where
    P: Protocol<Vid> + Serialize + DeserializeOwned,
    F: WireFormat,
{
    let verdict = |e: &Evidence<P, SP<F>>| guarded(|| e.verify(shared).map_err(|e| format!("{e:?}")));
    let before = verdict(e);
    // (whether genuine evidence verifies is another property)
    let _ = genuine;
    let again = rewire(e, how, "evidence")?;
    ensure!(again.guilty_party() == e.guilty_party(), "C15:behaviour", "{:?} became {:?}", e.guilty_party(), again.guilty_party());
    ensure!(again.description() == e.description(), "C15:behaviour", "{:?} became {:?}", e.description(), again.description());
    let after = verdict(&again);
    ensure!(before.is_ok() == after.is_ok(), "C15:behaviour", "evidence is verified differently after a round trip: {before:?} / {after:?}");
    if let (Ok(a), Ok(b)) = (before, after) {
        ensure!(a.is_ok() == b.is_ok(), "C15:behaviour", "evidence is verified differently after a round trip: {a:?} / {b:?}");
    }
    Ok(())
}

fn run_evidence(g: &mut Gen, ctx: &mut Ctx, trees: &[usize]) -> CaseRes {
    let tree = *g.pick(trees);
    let fmt = [1, 2, 0, 3][g.below(4)];
    let knobs = Knobs { nmin: 2, nmax: 4, stages: 3, full: 7, ..BYZ.knobs };
    let k = ByzKnobs { knobs, twist: 5, ..BYZ };
    {
        let cfgs = if tree == 0 { vec![Arc::new(gen_cfg(g, k.knobs))] } else { gen_cfgs(g, leaves(tree), k.knobs) };
        with_both!(tree, fmt, T, F => evidence_case::<T, F>(g, ctx, cfgs, k))
    }
}

fn evidence_case<T: Tree, F: WireFormat>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>, k: ByzKnobs) -> CaseRes {
    let sc = scene::<T, F>(g, ctx, cfgs, k)?;
    let shared = T::shared(&sc.cfgs);
    let (mut genuine, mut garbled) = (0, 0);
    for i in sc.honest() {
        let St::Done(rep) = &sc.net.nodes[i].st else { continue };
        for e in rep.provable_errors.values() {
            genuine += 1;
            let how = g.below(7);
            evidence::<T::Protocol, F>(e, &shared, how, true)?;
            for _ in 0..3 {
                let mut v = to_v(e);
                let ps = paths(&v, true);
                let p = g.pick(&ps).clone();
                if !mutate(g, at_mut(&mut v, &p).unwrap(), false) {
                    continue;
                }
                if let Ok(e) = serde_json::from_value::<Evidence<T::Protocol, SP<F>>>(v) {
                    garbled += 1;
                    evidence::<T::Protocol, F>(&e, &shared, how, false)?;
                }
            }
        }
    }
    ctx.add("evidence", genuine);
    ctx.add("garbled evidence", garbled);
    if genuine > 0 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{}, {genuine} pieces of evidence, {garbled} garbled", sc.net.plan.describe()));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ contents of messages

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Unit;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct New(u32);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Pair(i64, Any);

/// Values of all kinds which the data model of serde has and all of the formats can represent.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Any {
    Nothing,
    Bool(bool),
    Small(u8, i8, u16, i16),
    Big { a: u64, b: i64, c: u32, d: i32 },
    Char(char),
    Text(String),
    Maybe(Option<Box<Any>>),
    Many(Vec<Any>),
    Tuple((u8, String, [u16; 3])),
    Map(BTreeMap<String, Any>),
    Keyed(SerializableMap<Key, Any>),
    Nested(Box<Pair>),
    Unit(Unit),
    New(New),
    Float(f64),
    Id(RoundId),
    Vid(Vid),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum Key {
    A,
    B(u16),
    C { x: String },
}

fn text(g: &mut Gen) -> String {
    (0..g.below(5)).map(|_| *g.pick(&['a', '"', '\\', '\u{0}', 'é', '\u{10ffff}', '\n', '𝄞'])).collect()
}
fn num(g: &mut Gen) -> u64 {
    match g.below(6) {
        0 => 0,
        1 => 127 + g.below(3) as u64,
        2 => u64::MAX,
        3 => 1 << g.below(64),
        4 => (1u64 << g.below(64)) - 1,
        _ => g.u64(),
    }
}
fn key(g: &mut Gen) -> Key {
    match g.below(3) {
        0 => Key::A,
        1 => Key::B(g.below(300) as u16),
        _ => Key::C { x: text(g) },
    }
}
fn any(g: &mut Gen, depth: usize) -> Any {
    let d = depth.saturating_sub(1);
    match g.below(if depth == 0 { 11 } else { 17 }) {
        0 => Any::Nothing,
        1 => Any::Bool(g.chance(1, 2)),
        2 => Any::Small(num(g) as u8, num(g) as i8, num(g) as u16, num(g) as i16),
        3 => Any::Big { a: num(g), b: num(g) as i64, c: num(g) as u32, d: num(g) as i32 },
        4 => Any::Char(*g.pick(&['x', '\u{0}', '𝄞', '"'])),
        5 => Any::Text(text(g)),
        6 => Any::Tuple((num(g) as u8, text(g), [num(g) as u16, 7, num(g) as u16])),
        7 => Any::Unit(Unit),
        8 => Any::New(New(num(g) as u32)),
        9 => Any::Float(g.below(1000) as f64 / 8.0),
        10 => Any::Vid(Vid(num(g) as u16)),
        11 => Any::Maybe(if g.chance(1, 3) { None } else { Some(Box::new(any(g, d))) }),
        12 => Any::Many((0..g.below(5)).map(|_| any(g, d)).collect()),
        13 => Any::Map((0..g.below(4)).map(|_| (text(g), any(g, d))).collect()),
        14 => Any::Keyed((0..g.below(4)).map(|_| (key(g), any(g, d))).collect()),
        15 => Any::Nested(Box::new(Pair(num(g) as i64, any(g, d)))),
        _ => Any::Id(RoundId::new(num(g) as u8)),
    }
}

#[derive(Debug, Serialize, Deserialize)]
struct RichProto;
type Three = (Option<Any>, Option<Any>, Option<Any>);
impl Protocol<Vid> for RichProto {
    type Result = BTreeMap<Vid, Three>;
    type SharedData = ();
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Vid, Self>> {
        (*round_id == 1).then(RoundInfo::new::<RichRnd>)
    }
}
#[derive(Clone, Debug)]
struct RichEntry {
    /// One direct message to everybody, the broadcasts
    send: (Any, Any, Any),
    all: Vec<Vid>,
}
#[derive(Debug)]
struct RichRnd {
    e: RichEntry,
    me: Vid,
}
impl EntryPoint<Vid> for RichEntry {
    type Protocol = RichProto;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(self, _: &mut impl CryptoRngCore, _: &[u8], id: &Vid) -> Result<BoxedRound<Vid, RichProto>, LocalError> {
        Ok(BoxedRound::new(RichRnd { e: self, me: *id }))
    }
}
impl Round<Vid> for RichRnd {
    type Protocol = RichProto;
    type ProtocolError = NoProtocolErrors<Self>;
    type DirectMessage = Any;
    type EchoBroadcast = Any;
    type NormalBroadcast = Any;
    type Payload = Three;
    type Artifact = ();
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo::new_linear_terminating(1)
    }
    fn communication_info(&self) -> CommunicationInfo<Vid> {
        let others: std::collections::BTreeSet<Vid> = self.e.all.iter().copied().filter(|v| *v != self.me).collect();
        CommunicationInfo {
            message_destinations: others.clone(),
            expecting_messages_from: others,
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, _: &Vid) -> Result<(Any, ()), LocalError> {
        Ok((self.e.send.0.clone(), ()))
    }
    fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<Any, LocalError> {
        Ok(self.e.send.1.clone())
    }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<Any, LocalError> {
        Ok(self.e.send.2.clone())
    }
    fn receive_message(&self, _: &Vid, m: ProtocolMessage<Vid, Self>) -> Result<Three, ReceiveError<Vid, Self>> {
        Ok((Some(m.direct_message), Some(m.echo_broadcast), Some(m.normal_broadcast)))
    }
    fn finalize(
        self,
        _: &mut impl CryptoRngCore,
        payloads: BTreeMap<Vid, Three>,
        _: BTreeMap<Vid, ()>,
    ) -> Result<FinalizeOutcome<Vid, RichProto>, LocalError> {
        Ok(FinalizeOutcome::Result(payloads))
    }
}

fn run_contents(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let n = g.range(2, 3);
    let all: Vec<Vid> = (0..n).map(|i| Vid(i as u16 * 7)).collect();
    let sends: Vec<(Any, Any, Any)> = (0..n).map(|_| (any(g, 3), any(g, 2), any(g, 2))).collect();
    let fmt = g.below(4);
    ctx.note(|| { let mut s = format!("{:?}", sends[0]); s.truncate(s.char_indices().nth(300).map(|x| x.0).unwrap_or(s.len())); s });
    let seed = g.u64();
    // dev formats, directly
    for x in sends.iter().flat_map(|s| [&s.0, &s.1, &s.2]) {
        let how = g.below(7);
        let y = rewire(x, how, "value")?;
        ensure!(*x == y, "C15:contents", "{x:?} became {y:?}");
    }
    with_format!(fmt, F => {
        let entries: Vec<(Signer, RichEntry)> =
            (0..n).map(|i| (Signer::new(all[i]), RichEntry { send: sends[i].clone(), all: all.clone() })).collect();
        let res = run_sync::<_, SP<F>>(&mut rng_from(seed), entries).map_err(|e| Fail::new("C15:contents", e.to_string()))?;
        for (i, v) in all.iter().enumerate() {
            let Some(rep) = res.reports.get(v) else { fail!("C15:contents", "no report of {v:?}") };
            let SessionOutcome::Result(got) = &rep.outcome else {
                fail!("C15:contents", "{v:?} does not finish: {}; {sends:?}", rep.brief())
            };
            ensure!(got.len() == n - 1, "C15:contents", "{v:?} has got messages from {:?}", got.keys());
            for (from, m) in got {
                let j = all.iter().position(|x| x == from).unwrap();
                let s = &sends[j];
                let want = (Some(s.0.clone()), Some(s.1.clone()), Some(s.2.clone()));
                ensure!(*m == want, "C15:contents", "party {i} has got {m:?} instead of {want:?}");
            }
        }
        ctx.nontrivial();
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------ maps

trait Item: Clone + Debug + PartialEq + Serialize + DeserializeOwned {
    fn gen(g: &mut Gen) -> Self;
    const ASN1: bool = false;
}
impl Item for u8 {
    fn gen(g: &mut Gen) -> u8 {
        g.below(256) as u8
    }
    const ASN1: bool = true;
}
impl Item for u64 {
    fn gen(g: &mut Gen) -> u64 {
        num(g)
    }
    const ASN1: bool = true;
}
impl Item for bool {
    fn gen(g: &mut Gen) -> bool {
        g.chance(1, 2)
    }
    const ASN1: bool = true;
}
impl Item for String {
    fn gen(g: &mut Gen) -> String {
        text(g)
    }
    const ASN1: bool = true;
}
impl Item for Key {
    fn gen(g: &mut Gen) -> Key {
        key(g)
    }
}
impl Item for Any {
    fn gen(g: &mut Gen) -> Any {
        any(g, 1)
    }
}
impl Item for () {
    fn gen(_: &mut Gen) {}
}
impl Item for Vid {
    fn gen(g: &mut Gen) -> Vid {
        Vid(g.below(20) as u16)
    }
    const ASN1: bool = true;
}
impl<A: Item, B: Item> Item for (A, B) {
    fn gen(g: &mut Gen) -> (A, B) {
        (A::gen(g), B::gen(g))
    }
    const ASN1: bool = A::ASN1 && B::ASN1;
}
impl<A: Item> Item for Option<A> {
    fn gen(g: &mut Gen) -> Option<A> {
        g.chance(1, 2).then(|| A::gen(g))
    }
}
impl<A: Item> Item for Vec<A> {
    fn gen(g: &mut Gen) -> Vec<A> {
        (0..g.below(4)).map(|_| A::gen(g)).collect()
    }
    const ASN1: bool = A::ASN1;
}
impl<K: Item + Ord, V: Item> Item for SerializableMap<K, V> {
    fn gen(g: &mut Gen) -> Self {
        (0..g.below(4)).map(|_| (K::gen(g), V::gen(g))).collect()
    }
    const ASN1: bool = K::ASN1 && V::ASN1;
}

/// Serializes in any of the formats, also in the one which has no maps at all.
fn enc<T: Serialize>(x: &T, how: usize) -> Result<Vec<u8>, String> {
    match how {
        0 => BinaryFormat::serialize(x).map(|b| b.into()).map_err(|e| e.to_string()),
        1 => HumanReadableFormat::serialize(x).map(|b| b.into()).map_err(|e| e.to_string()),
        2 => FixedFormat::serialize(x).map(|b| b.into()).map_err(|e| e.to_string()),
        3 => bincode::serialize(x).map_err(|e| e.to_string()),
        _ => serde_asn1_der::to_vec(x).map_err(|e| e.to_string()),
    }
}
fn dec<T: DeserializeOwned>(b: &[u8], how: usize) -> Result<T, String> {
    match how {
        0 => de::<BinaryFormat, T>(b),
        1 => {
            let r: Result<T, String> = serde_json::from_slice(b).map_err(|e| e.to_string());
            let r2 = de::<HumanReadableFormat, T>(b);
            // (the second one does not care for what follows)
            if r.is_ok() { r2 } else { r }
        }
        2 => de::<FixedFormat, T>(b),
        3 => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => serde_asn1_der::from_bytes(b).map_err(|e| e.to_string()),
    }
}

fn run_maps(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    match g.below(9) {
        0 => map_case::<u8, u64>(g, ctx),
        1 => map_case::<String, Vec<u8>>(g, ctx),
        2 => map_case::<u64, ()>(g, ctx),
        3 => map_case::<Key, Any>(g, ctx),
        4 => map_case::<Vid, SerializableMap<String, u64>>(g, ctx),
        5 => map_case::<(u8, bool), Option<String>>(g, ctx),
        6 => map_case::<Vec<u8>, (bool, String)>(g, ctx),
        7 => map_case::<String, u64>(g, ctx),
        _ => map_case::<Option<u8>, SerializableMap<Key, SerializableMap<u8, bool>>>(g, ctx),
    }
}

fn map_case<K: Item + Ord, V: Item>(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let size = match g.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        7 => g.range(100, 300),
        _ => g.range(2, 9),
    };
    let asn1 = K::ASN1 && V::ASN1;
    let how = g.below(if asn1 { 5 } else { 4 });
    let plain: BTreeMap<K, V> = (0..size).map(|_| (K::gen(g), V::gen(g))).collect();
    let pairs: Vec<(K, V)> = plain.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let map: SerializableMap<K, V> = if g.chance(1, 2) { plain.clone().into() } else { plain.clone().into_iter().collect() };
    ensure!(*map == plain && BTreeMap::from(map.clone()) == plain, "C15:map", "{plain:?} became {map:?}");
    let Ok(bytes) = enc(&pairs, how) else {
        ctx.label("not representable");
        return Ok(());
    };
    let tale = || { let mut s = format!("format {how}, {pairs:?}"); s = s.chars().take(800).collect(); s };
    match enc(&map, how) {
        Err(e) => fail!("C15:map", "a map cannot be serialized: {e}; {}", tale()),
        Ok(b) => ensure!(b == bytes, "C15:map", "a map is not serialized as the list of its entries: {} / {}; {}", hex(&b), hex(&bytes), tale()),
    }
    let list_ok = dec::<Vec<(K, V)>>(&bytes, how).is_ok_and(|p| p == pairs);
    if !list_ok {
        ctx.label("not representable");
        return Ok(());
    }
    match dec::<SerializableMap<K, V>>(&bytes, how) {
        Err(e) => fail!("C15:map", "a map is not accepted back: {e}; {}", tale()),
        Ok(m) => ensure!(*m == plain, "C15:map", "a map became {m:?}; {}", tale()),
    }
    // the list of entries is never accepted partially
    if !bytes.is_empty() && !pairs.is_empty() {
        let cut = &bytes[..g.below(bytes.len())];
        if let Ok(m) = dec::<SerializableMap<K, V>>(cut, how) {
            let l = dec::<Vec<(K, V)>>(cut, how);
            ensure!(l.as_ref().is_ok_and(|l| l.len() == m.len()), "C15:map", "a part of a map is accepted: {m:?}, {l:?}; {}", tale());
        }
    }
    // repeated keys
    if !pairs.is_empty() {
        let mut p = pairs.clone();
        let extra = if g.chance(1, 3) { g.range(2, 4) } else { 1 };
        for _ in 0..extra {
            let (k, v) = g.pick(&pairs).clone();
            let v = if g.chance(1, 3) { v } else { V::gen(g) };
            let at = match g.below(3) {
                0 => p.iter().position(|x| x.0 == k).unwrap() + 1,
                1 => p.len(),
                _ => g.below(p.len() + 1),
            };
            p.insert(at, (k, v));
        }
        if g.chance(1, 3) {
            for i in (1..p.len()).rev() {
                let j = g.below(i + 1);
                p.swap(i, j);
            }
        }
        if let Ok(b) = enc(&p, how) {
            if let Ok(m) = dec::<SerializableMap<K, V>>(&b, how) {
                fail!("C15:repeated-key", "format {how}: {p:?} is accepted as {m:?}");
            }
            // also within something else
            let outer = vec![(3u8, pairs.clone()), (9u8, p.clone())];
            if let Ok(b) = enc(&outer, how) {
                if let Ok(m) = dec::<Vec<(u8, SerializableMap<K, V>)>>(&b, how) {
                    fail!("C15:repeated-key", "format {how}: {outer:?} is accepted as {m:?}");
                }
            }
        }
        ctx.nontrivial();
    }
    ctx.label(format!("map of {}", match pairs.len() { 0 => "no entries", 1 => "one entry", 2..=9 => "a few entries", 10..=127 => "up to 127 entries", _ => "more" }));
    ctx.note(tale);
    Ok(())
}
