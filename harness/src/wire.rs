//! Taking messages apart and putting them together; signing arbitrary contents as one of the malicious parties.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::OnceLock,
};

use manul::{
    protocol::{
        BoxedRound, CommunicationInfo, EchoRoundParticipation, EntryPoint, FinalizeOutcome, LocalError, NoArtifact,
        NoMessage, NoProtocolErrors, Protocol, ProtocolMessage, ReceiveError, Round, RoundId, RoundInfo,
        TransitionInfo,
    },
    session::{Message, Session, SessionId, WireFormat},
};
use rand_core::CryptoRngCore;
use serde_json::Value;

use crate::{
    params::{RawBytes, Signer, Vid, SP},
    util::{rng_from, Gen},
};

#[derive(Debug)]
pub struct RawProto;
impl Protocol<Vid> for RawProto {
    type Result = ();
    type SharedData = ();
    fn round_info(_: &RoundId) -> Option<RoundInfo<Vid, Self>> {
        None
    }
}
#[derive(Debug)]
pub struct RawRnd<const M: u8> {
    rid: RoundId,
    to: Vid,
    parts: [Option<Vec<u8>>; 3],
}
#[derive(Debug)]
pub struct RawEntry {
    rid: RoundId,
    to: Vid,
    parts: [Option<Vec<u8>>; 3],
}

macro_rules! raw {
    ($m:literal, $dm:ty, $eb:ty, $nb:ty, { $($make:item)* }) => {
        impl Round<Vid> for RawRnd<$m> {
            type Protocol = RawProto;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = $dm;
            type EchoBroadcast = $eb;
            type NormalBroadcast = $nb;
            type Payload = ();
            type Artifact = NoArtifactIf<$m>;
            fn transition_info(&self) -> TransitionInfo {
                TransitionInfo {
                    id: self.rid.clone(),
                    parents: BTreeSet::new(),
                    siblings: BTreeSet::new(),
                    children: BTreeSet::new(),
                    may_produce_result: true,
                }
            }
            fn communication_info(&self) -> CommunicationInfo<Vid> {
                CommunicationInfo {
                    message_destinations: BTreeSet::from([self.to]),
                    expecting_messages_from: BTreeSet::new(),
                    echo_round_participation: EchoRoundParticipation::Send,
                }
            }
            $($make)*
            fn receive_message(&self, _: &Vid, _: ProtocolMessage<Vid, Self>) -> Result<(), ReceiveError<Vid, Self>> {
                Ok(())
            }
            fn finalize(
                self,
                _: &mut impl CryptoRngCore,
                _: BTreeMap<Vid, ()>,
                _: BTreeMap<Vid, Self::Artifact>,
            ) -> Result<FinalizeOutcome<Vid, RawProto>, LocalError> {
                Ok(FinalizeOutcome::Result(()))
            }
        }
    };
}
type NoArtifactIf<const M: u8> = <Pick<M> as HasArt>::A;
pub struct Pick<const M: u8>;
pub trait HasArt {
    type A: 'static + Send + Sync;
}
macro_rules! art { ($($m:literal => $a:ty),*) => { $(impl HasArt for Pick<$m> { type A = $a; })* } }
art!(0 => NoArtifact, 1 => (), 2 => NoArtifact, 3 => (), 4 => NoArtifact, 5 => (), 6 => NoArtifact, 7 => ());

macro_rules! dm { () => { fn make_direct_message(&self, _: &mut impl CryptoRngCore, _: &Vid) -> Result<(RawBytes, ()), LocalError> { Ok((RawBytes(self.parts[0].clone().unwrap_or_default()), ())) } } }
macro_rules! eb { () => { fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<RawBytes, LocalError> { Ok(RawBytes(self.parts[1].clone().unwrap_or_default())) } } }
macro_rules! nb { () => { fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<RawBytes, LocalError> { Ok(RawBytes(self.parts[2].clone().unwrap_or_default())) } } }

raw!(0, NoMessage, NoMessage, NoMessage, {});
raw!(1, RawBytes, NoMessage, NoMessage, { dm!(); });
raw!(2, NoMessage, RawBytes, NoMessage, { eb!(); });
raw!(3, RawBytes, RawBytes, NoMessage, { dm!(); eb!(); });
raw!(4, NoMessage, NoMessage, RawBytes, { nb!(); });
raw!(5, RawBytes, NoMessage, RawBytes, { dm!(); nb!(); });
raw!(6, NoMessage, RawBytes, RawBytes, { eb!(); nb!(); });
raw!(7, RawBytes, RawBytes, RawBytes, { dm!(); eb!(); nb!(); });

impl EntryPoint<Vid> for RawEntry {
    type Protocol = RawProto;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(
        self,
        _: &mut impl CryptoRngCore,
        _: &[u8],
        _: &Vid,
    ) -> Result<BoxedRound<Vid, RawProto>, LocalError> {
        let RawEntry { rid, to, parts } = self;
        let m: u8 = (0..3).filter(|k| parts[*k].is_some()).map(|k| 1 << k).sum();
        Ok(match m {
            0 => BoxedRound::new(RawRnd::<0> { rid, to, parts }),
            1 => BoxedRound::new(RawRnd::<1> { rid, to, parts }),
            2 => BoxedRound::new(RawRnd::<2> { rid, to, parts }),
            3 => BoxedRound::new(RawRnd::<3> { rid, to, parts }),
            4 => BoxedRound::new(RawRnd::<4> { rid, to, parts }),
            5 => BoxedRound::new(RawRnd::<5> { rid, to, parts }),
            6 => BoxedRound::new(RawRnd::<6> { rid, to, parts }),
            _ => BoxedRound::new(RawRnd::<7> { rid, to, parts }),
        })
    }
}

/// Signs the given part contents (direct message, echo broadcast, normal broadcast) for any session and round.
pub fn forge<F: WireFormat>(
    signer: Vid,
    sid: &SessionId,
    rid: &RoundId,
    to: Vid,
    parts: [Option<Vec<u8>>; 3],
    seed: u64,
) -> Message<Vid> {
    let mut rng = rng_from(seed);
    let session = Session::<RawProto, SP<F>>::new(
        &mut rng,
        sid.clone(),
        Signer::new(signer),
        RawEntry { rid: rid.clone(), to, parts },
    )
    .expect("forging");
    session.make_message(&mut rng, &to).expect("forging").0
}

// ----------------------------------------------------------------------------- message structure

/// Names of the fields of a serialized message: direct message, echo broadcast, normal broadcast.
#[derive(Debug, Clone)]
pub struct Keys {
    pub part: [String; 3],
    /// Leaves (within a part) which hold the signature
    pub sig: BTreeSet<Path>,
    /// The leaf (within a part) which holds the contents
    pub payload: Option<Path>,
}

pub fn to_v<T: serde::Serialize>(x: &T) -> Value {
    serde_json::to_value(x).expect("serializable")
}
pub fn msg_from(v: &Value) -> Option<Message<Vid>> {
    serde_json::from_value(v.clone()).ok()
}

/// Finds out which field of a message is which by changing one part at a time.
pub fn keys() -> Option<&'static Keys> {
    static KEYS: OnceLock<Option<Keys>> = OnceLock::new();
    KEYS.get_or_init(|| {
        use crate::params::Bin;
        let sid = SessionId::from_seed::<SP<Bin>>(b"learn");
        let make = |k: usize, b: u8| {
            let mut parts: [Option<Vec<u8>>; 3] = [Some(vec![1]), Some(vec![1]), Some(vec![1])];
            parts[k] = Some(vec![b]);
            to_v(&forge::<Bin>(Vid(1), &sid, &RoundId::new(1), Vid(2), parts, 5))
        };
        let mut part: Vec<String> = Vec::new();
        for k in 0..3 {
            let (a, b) = (make(k, 1), make(k, 2));
            let (Value::Object(a), Value::Object(b)) = (a, b) else { return None };
            let diff: Vec<String> = a.iter().filter(|(key, v)| b.get(*key) != Some(v)).map(|(k, _)| k.clone()).collect();
            if diff.len() != 1 {
                return None;
            }
            part.push(diff[0].clone());
        }
        // only the signatures depend on the random source
        let make = |seed| to_v(&forge::<Bin>(Vid(1), &sid, &RoundId::new(1), Vid(2), [None, None, None], seed));
        let (a, b) = (make(5), make(6));
        let (a, b) = (a.get(&part[0])?, b.get(&part[0])?);
        let sig: BTreeSet<Path> = paths(a, true).into_iter().filter(|p| at(a, p) != at(b, p)).collect();
        let text = b"contents".to_vec();
        let v = to_v(&forge::<Bin>(Vid(1), &sid, &RoundId::new(1), Vid(2), [Some(text.clone()), None, None], 5));
        let v = v.get(&part[0])?;
        let payload = paths(v, true).into_iter().find(|p| at(v, p).and_then(decoded) == Some(text.clone()));
        Some(Keys { part: [part[0].clone(), part[1].clone(), part[2].clone()], sig, payload })
    })
    .as_ref()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unbase64(s: &str) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let (mut acc, mut n) = (0u32, 0);
    for c in s.trim_end_matches('=').bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' | b'-' => 62,
            b'/' | b'_' => 63,
            _ => return None,
        };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Some(out)
}
/// Bytes in a serialized value, in whatever encoding.
fn decoded(v: &Value) -> Option<Vec<u8>> {
    const TEXT: &[u8] = b"contents";
    match v {
        Value::String(s) if unhex(s).as_deref() == Some(TEXT) => unhex(s),
        Value::String(s) if unbase64(s).as_deref() == Some(TEXT) => unbase64(s),
        _ => None,
    }
}
/// The contents of a message part.
pub fn payload_of(part: &Value) -> Option<Vec<u8>> {
    let k = keys()?;
    let s = at(part, k.payload.as_ref()?)?.as_str()?;
    // the encoding is the same for all; hexadecimal if all of the learned text was
    static HEX: OnceLock<bool> = OnceLock::new();
    let hex = *HEX.get_or_init(|| {
        use crate::params::Bin;
        let sid = SessionId::from_seed::<SP<Bin>>(b"learn");
        let v = to_v(&forge::<Bin>(Vid(1), &sid, &RoundId::new(1), Vid(2), [Some(b"contents".to_vec()), None, None], 5));
        let s = v.get(&k.part[0]).and_then(|p| at(p, k.payload.as_ref().unwrap())).and_then(|s| s.as_str().map(|s| s.to_string()));
        s.and_then(|s| unhex(&s)) == Some(b"contents".to_vec())
    });
    if hex { unhex(s) } else { unbase64(s) }
}
/// The (first) signature leaf of a message part.
pub fn sig_of(part: &Value) -> Option<Value> {
    at(part, keys()?.sig.first()?).cloned()
}

/// Puts together a message out of parts of three messages.
pub fn mix(base: &Value, dm: &Value, eb: &Value, nb: &Value) -> Option<Value> {
    let k = keys()?;
    let mut v = base.clone();
    for (i, src) in [dm, eb, nb].into_iter().enumerate() {
        *v.get_mut(&k.part[i])? = src.clone();
    }
    Some(v)
}
pub fn part(v: &Value, k: usize) -> Option<&Value> {
    v.get(&keys()?.part[k])
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Key {
    I(usize),
    S(String),
}
pub type Path = Vec<Key>;

pub fn paths(v: &Value, leaves_only: bool) -> Vec<Path> {
    fn go(v: &Value, at: &mut Path, leaves_only: bool, out: &mut Vec<Path>) {
        match v {
            Value::Array(xs) => {
                if !leaves_only || xs.is_empty() {
                    out.push(at.clone());
                }
                for (i, x) in xs.iter().enumerate() {
                    at.push(Key::I(i));
                    go(x, at, leaves_only, out);
                    at.pop();
                }
            }
            Value::Object(m) => {
                if !leaves_only || m.is_empty() {
                    out.push(at.clone());
                }
                for (k, x) in m {
                    at.push(Key::S(k.clone()));
                    go(x, at, leaves_only, out);
                    at.pop();
                }
            }
            _ => out.push(at.clone()),
        }
    }
    let mut out = Vec::new();
    go(v, &mut Vec::new(), leaves_only, &mut out);
    out
}
pub fn at<'a>(v: &'a Value, p: &[Key]) -> Option<&'a Value> {
    let mut v = v;
    for k in p {
        v = match k {
            Key::I(i) => v.get(i)?,
            Key::S(s) => v.get(s)?,
        };
    }
    Some(v)
}
pub fn at_mut<'a>(v: &'a mut Value, p: &[Key]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match k {
            Key::I(i) => v.get_mut(i)?,
            Key::S(s) => v.get_mut(s)?,
        };
    }
    Some(v)
}

/// Changes a leaf a little; returns false if it could not be changed.
pub fn mutate_leaf(g: &mut Gen, v: &mut Value) -> bool {
    mutate(g, v, false)
}
/// `in_place`: a string keeps its length (the encodings of signatures may tolerate trailing bytes).
pub fn mutate(g: &mut Gen, v: &mut Value, in_place: bool) -> bool {
    match v {
        Value::Null => {
            *v = [Value::from(0), Value::from(1), Value::from(""), Value::from("AAAA"), Value::from(true)][g.below(5)].clone()
        }
        Value::Bool(b) => *b = !*b,
        Value::Number(n) => {
            let x = n.as_u64().unwrap_or(0);
            let y = [x ^ 1, x.wrapping_add(1), 0, 255, x ^ (1 << g.below(16)), x.wrapping_sub(1)][g.below(6)];
            if y == x {
                return false;
            }
            *v = Value::from(y)
        }
        Value::String(s) => {
            let mut b: Vec<char> = s.chars().collect();
            if b.is_empty() {
                *s = ["00", "AAAA", "a", "0"][g.below(4)].into();
                return true;
            }
            match if in_place { 0 } else { g.below(6) } {
                0 | 1 | 2 => {
                    let i = g.below(b.len());
                    let alphabet = ['0', '1', '5', 'a', 'f', 'A', 'B', '8'];
                    let c = alphabet[g.below(8)];
                    if b[i] == c {
                        return false;
                    }
                    b[i] = c;
                }
                3 => {
                    let k = b.len() - [1, 2, 4][g.below(3)].min(b.len());
                    b.truncate(k);
                }
                4 => {
                    b.extend(["00", "AA==", "ffff", "0"][g.below(4)].chars());
                }
                _ => {
                    if g.chance(1, 2) {
                        return { *v = Value::Null; true };
                    }
                    b.clear();
                }
            }
            *s = b.into_iter().collect();
        }
        Value::Array(a) => a.push(Value::Null),
        Value::Object(_) => return false,
    }
    true
}

fn is_sig(sig: &BTreeSet<Path>, path: &Path, within_part: bool) -> bool {
    sig.contains(if within_part { &path[..] } else { path.get(1..).unwrap_or(&[]) })
}

/// Changes a number or character at a random place in the message; `None` if nothing changed in effect.
pub fn tamper(g: &mut Gen, v: &Value, within: Option<usize>) -> Option<Value> {
    let mut v = v.clone();
    let k = keys()?;
    let root: Path = within.map(|i| vec![Key::S(k.part[i].clone())]).unwrap_or_default();
    let all: Vec<Path> = paths(at(&v, &root)?, true);
    let sub = g.pick(&all).clone();
    let sig = is_sig(&k.sig, &sub, within.is_some());
    let full: Path = root.into_iter().chain(sub).collect();
    mutate(g, at_mut(&mut v, &full)?, sig).then_some(v)
}
