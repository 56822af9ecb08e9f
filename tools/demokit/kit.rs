//! A small data-driven protocol and a hand-operated network, used by the demonstrations.
#![allow(dead_code, unused_imports, clippy::type_complexity)]
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
    marker::PhantomData,
    sync::Arc,
};

pub use manul::{
    combinators::chain::{ChainedJoin, ChainedMarker, ChainedProtocol, ChainedSharedData, ChainedSplit},
    dev::{BinaryFormat, ExtendableEntryPoint, HumanReadableFormat, RoundExtension},
    digest::{self, Digest},
    protocol::{
        BoxedRound, CommunicationInfo, EchoRoundParticipation, EntryPoint, EvidenceError, EvidenceMessages,
        FinalizeOutcome, LocalError, NoMessage, PartyId, Protocol, ProtocolError, ProtocolMessage, ReceiveError,
        RemoteError, RequiredMessageParts, RequiredMessages, Round, RoundId, RoundInfo, TransitionInfo,
    },
    session::{
        CanFinalize, Evidence, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId,
        SessionOutcome, SessionParameters, SessionReport, WireFormat,
    },
    signature::{self, DigestVerifier, Keypair, RandomizedDigestSigner},
};
pub use rand_chacha::ChaCha20Rng;
pub use rand_core::{CryptoRngCore, RngCore, SeedableRng};
pub use serde::{Deserialize, Serialize};
pub use serde_json::Value;
use sha3::Sha3_256;

// --- identities and signatures -----------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Debug)]
pub struct V(pub u8);
#[derive(Clone, Copy, Debug)]
pub struct S(pub u8);
#[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sig(pub u64, pub [u8; 32]);

fn mac(id: u8, nonce: u64, digest: &[u8]) -> [u8; 32] {
    Sha3_256::new()
        .chain_update(b"secret key of")
        .chain_update([id])
        .chain_update(nonce.to_be_bytes())
        .chain_update(digest)
        .finalize()
        .into()
}
impl<D: Digest> RandomizedDigestSigner<D, Sig> for S {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: D) -> Result<Sig, signature::Error> {
        let nonce = rng.next_u64();
        Ok(Sig(nonce, mac(self.0, nonce, &digest.finalize())))
    }
}
impl Keypair for S {
    type VerifyingKey = V;
    fn verifying_key(&self) -> V {
        V(self.0)
    }
}
impl<D: Digest> DigestVerifier<D, Sig> for V {
    fn verify_digest(&self, digest: D, s: &Sig) -> Result<(), signature::Error> {
        if s.1 == mac(self.0, s.0, &digest.finalize()) {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Sp<F = HumanReadableFormat>(PhantomData<F>);
impl<F: WireFormat> SessionParameters for Sp<F> {
    type Signer = S;
    type Verifier = V;
    type Signature = Sig;
    type Digest = Sha3_256;
    type WireFormat = F;
}

// --- the protocol ------------------------------------------------------------------------------

/// Rounds with the numbers of 100 and above send echo broadcasts.
pub fn is_echoed(round: u8) -> bool {
    round >= 100
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Msg {
    pub text: String,
    pub rnd: u64,
}

#[derive(Debug, Clone)]
pub enum Judge {
    Fine,
    Unprovable,
    Provable(Blame),
}

/// What a provable error needs: the parts of the offending message ('e', 'n', 'd'), the parts of the earlier rounds,
/// and the rounds whose combined echos are needed. It is confirmed if every needed message contains `word`
/// (for the combined echos: at least one of them does).
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub struct Blame {
    pub word: String,
    pub this: String,
    pub before: Vec<(u8, String)>,
    pub echos: Vec<u8>,
}
impl Blame {
    pub fn this(parts: &str) -> Blame {
        Blame { word: "bad".into(), this: parts.into(), before: vec![], echos: vec![] }
    }
}

#[derive(Clone)]
pub struct Beh {
    pub start: u8,
    pub info: Arc<dyn Fn(u8) -> TransitionInfo + Send + Sync>,
    pub comm: Arc<dyn Fn(u8, u8) -> CommunicationInfo<V> + Send + Sync>,
    /// (round, me, part, destination (0 for broadcasts)) -> text
    pub say: Arc<dyn Fn(u8, u8, char, u8) -> String + Send + Sync>,
    /// (round, me, from, echo, normal, direct)
    pub judge: Arc<dyn Fn(u8, u8, u8, &str, &str, &str) -> Judge + Send + Sync>,
    /// (round, me, what was received in it) -> the next round or the result
    pub next: Arc<dyn Fn(u8, u8, &BTreeMap<u8, Got>) -> Option<u8> + Send + Sync>,
    /// (round, me, destination): the direct message cannot be made
    pub fails: Arc<dyn Fn(u8, u8, u8) -> bool + Send + Sync>,
}
impl Debug for Beh {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Beh")
    }
}

pub fn set(ids: &[u8]) -> BTreeSet<V> {
    ids.iter().map(|i| V(*i)).collect()
}
pub fn ids(nums: &[u8]) -> BTreeSet<RoundId> {
    nums.iter().map(|n| RoundId::new(*n)).collect()
}
pub fn tinfo(id: u8, parents: &[u8], siblings: &[u8], children: &[u8], result: bool) -> TransitionInfo {
    TransitionInfo {
        id: RoundId::new(id),
        parents: ids(parents),
        siblings: ids(siblings),
        children: ids(children),
        may_produce_result: result,
    }
}
pub fn others(n: u8, me: u8) -> BTreeSet<V> {
    (1..=n).filter(|i| *i != me).map(V).collect()
}

impl Beh {
    /// The rounds in `seq` in this order, everyone talking to everyone.
    pub fn linear(n: u8, seq: &[u8]) -> Beh {
        let (s1, s2, start) = (seq.to_vec(), seq.to_vec(), seq[0]);
        Beh {
            start,
            info: Arc::new(move |r| {
                let i = s1.iter().position(|x| *x == r).unwrap();
                let parents = if i > 0 { vec![s1[i - 1]] } else { vec![] };
                let children = if i + 1 < s1.len() { vec![s1[i + 1]] } else { vec![] };
                tinfo(r, &parents, &[], &children, children.is_empty())
            }),
            comm: Arc::new(move |_, me| CommunicationInfo::regular(&others(n, me))),
            say: Arc::new(|r, me, part, to| format!("{part}{r} of {me} for {to}")),
            judge: Arc::new(|_, _, _, _, _, _| Judge::Fine),
            next: Arc::new(move |r, _, _| {
                let i = s2.iter().position(|x| *x == r).unwrap();
                s2.get(i + 1).copied()
            }),
            fails: Arc::new(|_, _, _| false),
        }
    }
    pub fn say(mut self, f: impl Fn(u8, u8, char, u8) -> String + Send + Sync + 'static) -> Self {
        self.say = Arc::new(f);
        self
    }
    pub fn judge(mut self, f: impl Fn(u8, u8, u8, &str, &str, &str) -> Judge + Send + Sync + 'static) -> Self {
        self.judge = Arc::new(f);
        self
    }
    pub fn next(mut self, f: impl Fn(u8, u8, &BTreeMap<u8, Got>) -> Option<u8> + Send + Sync + 'static) -> Self {
        self.next = Arc::new(f);
        self
    }
    pub fn comm(mut self, f: impl Fn(u8, u8) -> CommunicationInfo<V> + Send + Sync + 'static) -> Self {
        self.comm = Arc::new(f);
        self
    }
    pub fn info(mut self, f: impl Fn(u8) -> TransitionInfo + Send + Sync + 'static) -> Self {
        self.info = Arc::new(f);
        self
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Got {
    pub e: String,
    pub n: String,
    pub d: String,
    pub rnds: Vec<u64>,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Out {
    pub shared: Vec<u8>,
    /// (round, from) -> what was received
    pub log: BTreeMap<(u8, u8), Got>,
    /// (round, to) -> artifact
    pub arts: BTreeMap<(u8, u8), u64>,
    pub order: Vec<u8>,
}

/// `K` makes different protocols of the same rounds.
#[derive(Debug, Serialize, Deserialize)]
pub struct Kp<const K: u8>;
impl<const K: u8> Protocol<V> for Kp<K> {
    type Result = Out;
    type SharedData = ();
    fn round_info(id: &RoundId) -> Option<RoundInfo<V, Self>> {
        for num in 1..200u8 {
            if id == &RoundId::new(num) {
                return Some(if is_echoed(num) {
                    RoundInfo::new::<Re<K>>()
                } else {
                    RoundInfo::new::<Rn<K>>()
                });
            }
        }
        None
    }
}

#[derive(Debug, Clone)]
pub struct St {
    pub round: u8,
    pub me: u8,
    pub beh: Beh,
    pub out: Out,
}
fn boxed<const K: u8>(st: St) -> BoxedRound<V, Kp<K>> {
    if is_echoed(st.round) {
        BoxedRound::new(Re::<K>(st))
    } else {
        BoxedRound::new(Rn::<K>(st))
    }
}
impl St {
    fn msg(&self, rng: &mut impl CryptoRngCore, part: char, to: u8) -> Msg {
        Msg { text: (self.beh.say)(self.round, self.me, part, to), rnd: rng.next_u64() }
    }
    fn done<const K: u8>(
        mut self,
        payloads: BTreeMap<V, Got>,
        artifacts: BTreeMap<V, u64>,
    ) -> FinalizeOutcome<V, Kp<K>> {
        let got: BTreeMap<u8, Got> = payloads.into_iter().map(|(k, v)| (k.0, v)).collect();
        for (from, g) in &got {
            self.out.log.insert((self.round, *from), g.clone());
        }
        for (to, a) in artifacts {
            self.out.arts.insert((self.round, to.0), a);
        }
        self.out.order.push(self.round);
        match (self.beh.next)(self.round, self.me, &got) {
            Some(next) => {
                self.round = next;
                FinalizeOutcome::AnotherRound(boxed(self))
            }
            None => FinalizeOutcome::Result(self.out),
        }
    }
}

macro_rules! round {
    ($name:ident, $err:ident, $echo:ty, $echoed:expr, $($make_echo:item)?) => {
        #[derive(Debug)]
        pub struct $name<const K: u8>(pub St);
        #[derive(Debug, Clone, Serialize, Deserialize)]
        pub struct $err<const K: u8>(pub Blame);

        impl<const K: u8> Round<V> for $name<K> {
            type Protocol = Kp<K>;
            type ProtocolError = $err<K>;
            type DirectMessage = Msg;
            type NormalBroadcast = Msg;
            type EchoBroadcast = $echo;
            type Payload = Got;
            type Artifact = u64;
            fn transition_info(&self) -> TransitionInfo {
                (self.0.beh.info)(self.0.round)
            }
            fn communication_info(&self) -> CommunicationInfo<V> {
                (self.0.beh.comm)(self.0.round, self.0.me)
            }
            fn make_direct_message(
                &self,
                rng: &mut impl CryptoRngCore,
                destination: &V,
            ) -> Result<(Msg, u64), LocalError> {
                if (self.0.beh.fails)(self.0.round, self.0.me, destination.0) {
                    return Err(LocalError::new("cannot make a message"));
                }
                let m = self.0.msg(rng, 'd', destination.0);
                let art = m.rnd;
                Ok((m, art))
            }
            fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Msg, LocalError> {
                Ok(self.0.msg(rng, 'n', 0))
            }
            $($make_echo)?
            fn receive_message(
                &self,
                from: &V,
                m: ProtocolMessage<V, Self>,
            ) -> Result<Got, ReceiveError<V, Self>> {
                let mut rnds = vec![m.normal_broadcast.rnd, m.direct_message.rnd];
                let f: fn(&$echo) -> (String, Option<u64>) = $echoed;
                let (e, rnd) = f(&m.echo_broadcast);
                rnds.extend(rnd);
                let got = Got { e, n: m.normal_broadcast.text, d: m.direct_message.text, rnds };
                match (self.0.beh.judge)(self.0.round, self.0.me, from.0, &got.e, &got.n, &got.d) {
                    Judge::Fine => Ok(got),
                    Judge::Unprovable => Err(ReceiveError::Unprovable(RemoteError::new("unprovable"))),
                    Judge::Provable(b) => Err(ReceiveError::Protocol($err(b))),
                }
            }
            fn finalize(
                self,
                _rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<V, Got>,
                artifacts: BTreeMap<V, u64>,
            ) -> Result<FinalizeOutcome<V, Kp<K>>, LocalError> {
                Ok(self.0.done(payloads, artifacts))
            }
        }

        impl<const K: u8> ProtocolError<V> for $err<K> {
            type Round = $name<K>;
            fn description(&self) -> String {
                "blame".into()
            }
            fn required_messages(&self, _round_id: &RoundId) -> RequiredMessages {
                let b = &self.0;
                let before = b.before.iter().map(|(r, p)| (RoundId::new(*r), parts(p))).collect::<BTreeMap<_, _>>();
                RequiredMessages::new(
                    parts(&b.this),
                    (!before.is_empty()).then_some(before),
                    (!b.echos.is_empty()).then_some(ids(&b.echos)),
                )
            }
            fn verify_evidence(
                &self,
                _round_id: &RoundId,
                _from: &V,
                _shared_randomness: &[u8],
                _shared_data: &(),
                m: EvidenceMessages<'_, V, Self::Round>,
            ) -> Result<(), EvidenceError> {
                let b = &self.0;
                let f: fn(&$echo) -> (String, Option<u64>) = $echoed;
                let mut texts = Vec::new();
                for p in b.this.chars() {
                    texts.push(match p {
                        'e' => f(&m.echo_broadcast()?).0,
                        'n' => m.normal_broadcast()?.text,
                        _ => m.direct_message()?.text,
                    });
                }
                for (r, parts) in &b.before {
                    for p in parts.chars() {
                        texts.push(match p {
                            'e' => m.previous_echo_broadcast::<Re<K>>(*r)?.text,
                            'n' => m.previous_normal_broadcast::<Re<K>>(*r)?.text,
                            _ => m.previous_direct_message::<Re<K>>(*r)?.text,
                        });
                    }
                }
                for r in &b.echos {
                    let all = m.combined_echos::<Re<K>>(*r)?;
                    texts.push(all.values().map(|m| m.text.clone()).collect::<Vec<_>>().join(" "));
                }
                if texts.iter().all(|t| t.contains(&b.word)) {
                    Ok(())
                } else {
                    Err(EvidenceError::InvalidEvidence("not proved".into()))
                }
            }
        }
    };
}
fn parts(p: &str) -> RequiredMessageParts {
    let mut it = p.chars();
    let mut res = match it.next().unwrap() {
        'e' => RequiredMessageParts::echo_broadcast(),
        'n' => RequiredMessageParts::normal_broadcast(),
        _ => RequiredMessageParts::direct_message(),
    };
    for c in it {
        res = match c {
            'e' => res.and_echo_broadcast(),
            'n' => res.and_normal_broadcast(),
            _ => res.and_direct_message(),
        };
    }
    res
}

round!(Rn, En, NoMessage, |_| ("".into(), None),);
round!(Re, Ee, Msg, |m| (m.text.clone(), Some(m.rnd)),
    fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Msg, LocalError> {
        Ok(self.0.msg(rng, 'e', 0))
    }
);

#[derive(Debug, Clone)]
pub struct Ep<const K: u8>(pub Beh, pub Out);
impl<const K: u8> Ep<K> {
    pub fn new(beh: &Beh) -> Self {
        Ep(beh.clone(), Out::default())
    }
}
impl<const K: u8> EntryPoint<V> for Ep<K> {
    type Protocol = Kp<K>;
    fn entry_round_id() -> RoundId {
        // The starting rounds of all the protocols used here.
        RoundId::new(if K % 2 == 0 { 1 } else { 101 })
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        shared: &[u8],
        id: &V,
    ) -> Result<BoxedRound<V, Kp<K>>, LocalError> {
        let mut out = self.1;
        out.shared.extend(shared);
        let round = self.0.start;
        assert_eq!(Self::entry_round_id(), RoundId::new(round));
        Ok(boxed(St { round, me: id.0, beh: self.0, out }))
    }
}

/// `Kp<A>` and then `Kp<B>`.
#[derive(Debug, Serialize, Deserialize)]
pub struct Chain<const A: u8, const B: u8>;
impl<const A: u8, const B: u8> ChainedMarker for Chain<A, B> {}
impl<const A: u8, const B: u8> ChainedProtocol<V> for Chain<A, B> {
    type Protocol1 = Kp<A>;
    type Protocol2 = Kp<B>;
}
#[derive(Debug, Clone)]
pub struct Ce<const A: u8, const B: u8>(pub Beh, pub Beh);
impl<const A: u8, const B: u8> ChainedMarker for Ce<A, B> {}
impl<const A: u8, const B: u8> ChainedSplit<V> for Ce<A, B> {
    type Protocol = Chain<A, B>;
    type EntryPoint = Ep<A>;
    fn make_entry_point1(self) -> (Ep<A>, impl ChainedJoin<V, Protocol = Chain<A, B>>) {
        (Ep::new(&self.0), Cj::<A, B>(self.1))
    }
}
#[derive(Debug)]
pub struct Cj<const A: u8, const B: u8>(Beh);
impl<const A: u8, const B: u8> ChainedJoin<V> for Cj<A, B> {
    type Protocol = Chain<A, B>;
    type EntryPoint = Ep<B>;
    fn make_entry_point2(self, result: Out) -> Ep<B> {
        Ep(self.0, result)
    }
}

// --- the network -------------------------------------------------------------------------------

pub fn rng(seed: u64) -> ChaCha20Rng {
    ChaCha20Rng::seed_from_u64(seed)
}
pub fn sid(name: &str) -> SessionId {
    SessionId::from_seed::<Sp>(name.as_bytes())
}
pub fn json<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap()
}

pub struct Node<P: Protocol<V>, F: WireFormat = HumanReadableFormat> {
    pub id: u8,
    pub rng: ChaCha20Rng,
    pub session: Option<Session<P, Sp<F>>>,
    pub accum: Option<RoundAccumulator<P, Sp<F>>>,
    /// Messages not yet delivered: (to, message).
    pub out: Vec<(u8, Message<V>)>,
    pub report: Option<SessionReport<P, Sp<F>>>,
}

impl<P: Protocol<V>, F: WireFormat> Node<P, F> {
    pub fn new<E: EntryPoint<V, Protocol = P>>(id: u8, sid: &SessionId, ep: E) -> Self {
        Self::seeded(id, sid, ep, 0)
    }
    pub fn seeded<E: EntryPoint<V, Protocol = P>>(id: u8, sid: &SessionId, ep: E, seed: u64) -> Self {
        let mut rng = rng(seed * 1000 + u64::from(id));
        let session = Session::<P, Sp<F>>::new(&mut rng, sid.clone(), S(id), ep).unwrap();
        let mut node = Node { id, rng, session: Some(session), accum: None, out: vec![], report: None };
        node.begin();
        node
    }
    fn begin(&mut self) {
        let session = self.session.as_ref().unwrap();
        let mut accum = session.make_accumulator();
        for to in session.message_destinations() {
            let (message, artifact) = session.make_message(&mut self.rng, to).unwrap();
            self.out.push((to.0, message));
            session.add_artifact(&mut accum, artifact).unwrap();
        }
        self.accum = Some(accum);
    }
    /// Takes the oldest message for `to` made so far.
    pub fn take(&mut self, to: u8) -> Message<V> {
        let i = self.out.iter().position(|(t, _)| *t == to).expect("there is such a message");
        self.out.remove(i).1
    }
    /// Returns 'p' (processed), 'c' (cached), 'e' (error), or '-' (the session is over).
    pub fn get(&mut self, from: u8, message: Message<V>) -> char {
        let (Some(session), Some(accum)) = (&self.session, &mut self.accum) else { return '-' };
        match session.preprocess_message(accum, &V(from), message).unwrap() {
            PreprocessOutcome::ToProcess(verified) => {
                let processed = session.process_message(*verified);
                session.add_processed_message(accum, processed).unwrap();
                'p'
            }
            PreprocessOutcome::Cached => 'c',
            PreprocessOutcome::Error(_) => 'e',
        }
    }
    pub fn can(&self) -> Option<CanFinalize> {
        Some(self.session.as_ref()?.can_finalize(self.accum.as_ref()?))
    }
    /// Finalizes the round if it is possible. Returns `true` if the state has changed.
    pub fn step(&mut self) -> bool {
        match self.can() {
            Some(CanFinalize::Yes) => {
                let (session, accum) = (self.session.take().unwrap(), self.accum.take().unwrap());
                match session.finalize_round(&mut self.rng, accum).unwrap() {
                    RoundOutcome::Finished(report) => self.report = Some(report),
                    RoundOutcome::AnotherRound { session, cached_messages } => {
                        self.session = Some(*session);
                        self.begin();
                        for m in cached_messages {
                            let session = self.session.as_ref().unwrap();
                            let processed = session.process_message(m);
                            session.add_processed_message(self.accum.as_mut().unwrap(), processed).unwrap();
                        }
                    }
                }
                true
            }
            Some(CanFinalize::Never) => {
                let (session, accum) = (self.session.take().unwrap(), self.accum.take().unwrap());
                self.report = Some(session.terminate_due_to_errors(accum).unwrap());
                true
            }
            _ => false,
        }
    }
    pub fn stop(&mut self) {
        if let (Some(session), Some(accum)) = (self.session.take(), self.accum.take()) {
            self.report = Some(session.terminate(accum).unwrap());
        }
    }
    pub fn rep(&self) -> &SessionReport<P, Sp<F>> {
        self.report.as_ref().expect("the session is over")
    }
    pub fn clean(&self) -> bool {
        let r = self.rep();
        r.provable_errors.is_empty() && r.unprovable_errors.is_empty() && r.missing_messages.is_empty()
    }
    pub fn result(&self) -> Option<&P::Result> {
        match &self.rep().outcome {
            SessionOutcome::Result(r) => Some(r),
            _ => None,
        }
    }
    pub fn proof(&self, guilty: u8) -> Option<&Evidence<P, Sp<F>>> {
        self.rep().provable_errors.get(&V(guilty))
    }
    pub fn blames(&self) -> BTreeSet<u8> {
        let r = self.rep();
        r.provable_errors.keys().chain(r.unprovable_errors.keys()).map(|v| v.0).collect()
    }
}

/// Delivers everything (the messages of each sender in order, the senders in turn) until nothing changes,
/// and stops those who are still waiting.
pub fn run<P: Protocol<V>, F: WireFormat>(nodes: &mut [Node<P, F>]) {
    run_with(nodes, |_, _, m| vec![m])
}
pub fn run_with<P: Protocol<V>, F: WireFormat>(
    nodes: &mut [Node<P, F>],
    mut wire: impl FnMut(u8, u8, Message<V>) -> Vec<Message<V>>,
) {
    for round in 0..100_000 {
        let mut changed = false;
        for node in nodes.iter_mut() {
            changed |= node.step();
        }
        let i = round % nodes.len();
        if !nodes[i].out.is_empty() {
            let (to, m) = nodes[i].out.remove(0);
            let from = nodes[i].id;
            for m in wire(from, to, m) {
                for node in nodes.iter_mut() {
                    if node.id == to {
                        node.get(from, m.clone());
                    }
                }
            }
            changed = true;
        }
        if !changed && nodes.iter().all(|n| n.out.is_empty()) {
            break;
        }
    }
    for node in nodes {
        node.stop();
    }
}

/// The bytes of a payload, as they are kept inside a message in the human readable format.
pub fn b64(bytes: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in bytes.chunks(3) {
        let x = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..=c.len() {
            s.push(char::from(A[((x >> (18 - 6 * i)) & 63) as usize]));
        }
        for _ in c.len()..3 {
            s.push('=');
        }
    }
    s
}
pub fn unb64(s: &str) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let (mut x, mut bits, mut out) = (0u32, 0, Vec::new());
    for c in s.bytes().filter(|c| *c != b'=') {
        x = (x << 6) | A.iter().position(|a| *a == c).unwrap() as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((x >> bits) as u8);
            x &= (1 << bits) - 1;
        }
    }
    out
}
/// The message with a part ("echo_broadcast", "normal_broadcast", "direct_message") replaced.
pub fn with_part(message: &Message<V>, part: &str, new: &Value) -> Message<V> {
    let mut j = json(message);
    j[part] = new.clone();
    serde_json::from_value(j).unwrap()
}
/// The (deserialized) payload of a part of a message.
pub fn payload(part: &Value) -> Value {
    let bytes = unb64(part["message_with_metadata"]["message"].as_str().unwrap());
    serde_json::from_slice(&bytes).unwrap()
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
