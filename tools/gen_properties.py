#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
M = "manul/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[M + f if not f.startswith(("examples", "manul")) else f for f in files],
                               state=[dict(name=n, meaning=m, where=M + w) for n, m, w in state],
                               mechanism=[dict(name=n, where=M + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Honest parties finish with the right result under any delivery order",
 "If all parties are honest and every message sent is eventually delivered exactly once, then for every protocol (any mix of direct messages, echo and normal broadcasts, any consistent send/receive pattern including partial echo rounds and idle parties, branching into sibling rounds, any party count) every session finishes with exactly the result the protocol defines. This holds for every delivery order in which messages can overtake each other and arrive one step early, and for every interleaving of message creation, preprocessing, processing and finalization. No report then contains any error or missing message.",
 ["schedules","configurations","programs","inputs"],
 "all protocol shapes x communication topologies x party counts x delivery orders x interleavings of the session calls, as long as no party is ever more than one round ahead of a recipient (the documented caching limit)",
 "The tests run four fixed protocols with 3-10 parties on one random order each; a message lost from the cache on one ordering, topology or round kind is not reached.",
 ["session/session.rs","session/echo.rs","protocol/round_id.rs","protocol/dyn_round.rs","session/transcript.rs"],
 [("message caching and re-application","session/session.rs: preprocess_message, finalize_round"),("acceptable round ids","protocol/round_id.rs: simultaneous_rounds"),("echo round insertion","session/echo.rs")],
 [("accumulator","messages, payloads, artifacts and cached messages of the active round","session/session.rs: RoundAccumulator")],
 ["session reports of all parties"])

prop("C02", "Each round gets exactly the messages addressed to it, once, unaltered",
 "Whenever a round is finalized, it is given exactly one payload for each party it expects messages from, made from exactly the message parts that party created for this recipient in this round, and exactly the artifacts it created for each of its own destinations. Each such message is handed to the round once, to no other round, and the round is finalized once; a message of a kind the round does not use is never handed to it.",
 ["schedules","configurations","inputs","histories"],
 "all protocol shapes and topologies x delivery orders x duplicated, early, stray and hostile extra traffic",
 "Tests only look at final sums of one-byte values, in which a swapped, repeated or misrouted payload can cancel out, and they never duplicate or reorder traffic deliberately.",
 ["session/session.rs","protocol/dyn_round.rs","session/echo.rs","protocol/message.rs"],
 [("payload and artifact bookkeeping","session/session.rs: RoundAccumulator::add_processed_message, add_artifact"),("typed downcasts","protocol/dyn_round.rs: RoundWrapper")],
 [], ["arguments of the round's receive and finalize calls"])

prop("C03", "Nothing a remote party sends can crash or abort the local session",
 "Whatever sequence of messages remote parties (participants or outsiders) deliver - arbitrary decodable bytes, wrong session or round, duplicates, unexpected senders, replays of other parties' messages, malformed echo packs, early or late messages - no session call reports a local error or panics. Every such message is either processed, cached or rejected as a remote error, and messages from parties other than the offender keep being accepted as before.",
 ["inputs","histories","fault_sequences","schedules"],
 "all sequences of adversarial messages interleaved in any order with honest traffic, for any protocol shape and any point of the session's life",
 "The tests contain two misbehaving parties that each send one well-formed but wrong value; no test sends duplicates, unexpected senders, early garbage or corrupt packs.",
 ["session/session.rs","session/echo.rs","session/message.rs","session/transcript.rs","protocol/dyn_round.rs"],
 [("remote/local error separation","session/session.rs: preprocess_message, add_processed_message"),("echo pack validation","session/echo.rs: receive_message")],
 [], ["return values of the session calls"])

prop("C04", "Only messages authentic for this session, round and slot are acted on",
 "A message is processed or cached only if the party it is attributed to signed every one of its parts for this very session, for one and the same currently acceptable round, and for that message slot. A message with any altered signed field, attributed to another party, taken from another session or round, or assembled from parts of different messages or slots is rejected and never reaches a round.",
 ["inputs","histories","fault_sequences"],
 "all single and multiple alterations of all serialized fields of genuine messages, all recombinations of parts, all re-attributions and replays across rounds, sessions and slots",
 "The test signature scheme does not even look at the signed data, so no existing test can notice a field that is not covered by the signature or not checked.",
 ["session/message.rs","session/session.rs","protocol/message.rs","protocol/round_id.rs"],
 [("signed digest over metadata and part","session/message.rs: message_digest"),("metadata unification","session/message.rs: unify_metadata"),("session and round check","session/session.rs: preprocess_message")],
 [], ["preprocessing outcome", "messages seen by rounds"])

prop("C05", "A party that commits an offence is recorded and shut out",
 "Every message that is rejected as its sender's fault puts that sender, and nobody else, into the errors of the final report (an attributed broadcast mismatch puts the equivocator there). From then on no further message from that party is accepted for processing or cached for the rest of the session, and messages of it cached earlier are not applied (a message already handed out for processing may still be completed); the recorded error stays in the report.",
 ["histories","inputs","fault_sequences","schedules"],
 "all interleavings of offences of every kind with valid, early and cached messages of the same and other parties over several rounds",
 "No test sends anything after an offence, or mixes cached messages with offences.",
 ["session/session.rs","session/transcript.rs"],
 [("ban checks","session/session.rs: is_banned, finalize_round"),("error collection","session/transcript.rs: update")],
 [("errors","provable and unprovable errors per party","session/transcript.rs: Transcript")], ["session report", "preprocessing outcome"])

prop("C06", "Finalizability and the final report state what actually happened",
 "The answer to whether a round can be finalized is yes exactly when a valid message of every expected party was processed; never exactly when that cannot happen any more, because every expected party whose message is not accepted has already answered with an invalid one; and not yet otherwise. The final report's outcome is the protocol's result, not-enough-messages when terminated because of errors, or terminated when the user (or a cancellation) stopped the session, and for every finished or terminated round it names as missing each expected party that sent nothing and none whose message was processed.",
 ["histories","fault_sequences","schedules"],
 "all subsets and orders of valid, invalid and absent answers in every round kind including echo rounds, with termination at any point",
 "The tests never terminate a session, never leave a party silent, and never query finalizability with rejected messages outstanding.",
 ["session/session.rs","session/transcript.rs","session/tokio.rs"],
 [("finalizability","session/session.rs: can_finalize"),("termination","session/session.rs: terminate, terminate_due_to_errors")],
 [], ["can_finalize", "session report"])

prop("C07", "No honest party goes on with an echo broadcast that others saw differently",
 "If an echoed broadcast round is completed by two honest parties that both take part in its echo round, both hold byte-identical echo broadcasts from every sender. If some sender showed different correctly signed broadcasts to them and the echoes are exchanged, none of those who learn of the difference completes the round, and each of them reports a provable error against the equivocating sender.",
 ["fault_sequences","schedules","configurations"],
 "all assignments of differing broadcasts to recipients, all malicious echo packs and all delivery orders, over full and partial echo topologies",
 "No existing test contains an equivocating sender or a corrupted echo pack; only honest echo rounds are run.",
 ["session/echo.rs","session/session.rs","session/message.rs"],
 [("comparison of echoed hashes","session/echo.rs: receive_message"),("echo participation","session/session.rs: new_for_next_round")],
 [], ["payloads of finalized rounds", "session report"])

prop("C08", "An honest party is never blamed",
 "Whatever the other parties send, and in whatever order, a session of an honest party never reports a provable or unprovable error against a party that follows the protocol and whose messages reach it unaltered. In particular forwarding or echoing somebody else's bad broadcast, or being impersonated under another identity, never puts the blame on the forwarder or on the impersonated party.",
 ["fault_sequences","schedules","inputs","configurations"],
 "all strategies of any set of malicious participants and outsiders (equivocation, bad echo packs, replays, malformed parts, wrong rounds), all delivery orders",
 "The existing tests have a single misbehaving party and check only that it is reported, in protocols in which no honest party can relay its fault.",
 ["session/session.rs","session/echo.rs","session/evidence.rs"],
 [("attribution of echo errors","session/evidence.rs: new_echo_round_error; session/session.rs: add_processed_message")],
 [], ["session reports of honest parties"])

prop("C09", "Every provable error comes with evidence that convinces a third party",
 "Each provable error in an honest party's report is filed under the party its evidence names, and that evidence verifies successfully given only the shared data, also after being serialized and deserialized in any supported wire format by somebody else. This holds for every kind of offence: undecodable or unexpected parts in normal and echo rounds, protocol errors needing any combination of earlier messages and combined echoes, invalid echoes and mismatched broadcasts, in plain and chained protocols.",
 ["inputs","fault_sequences","programs","configurations"],
 "all offence kinds x required-message combinations x rounds x protocol nesting x wire formats",
 "Two offences of one example protocol are tested, in one format and without serializing the evidence.",
 ["session/evidence.rs","session/echo.rs","protocol/evidence.rs","protocol/dyn_evidence.rs","protocol/round_info.rs","combinators/chain.rs"],
 [("evidence assembly","session/evidence.rs: new_provable_error"),("evidence verification","session/evidence.rs: verify")],
 [], ["Evidence::verify"])

prop("C10", "No evidence verifies against a party that did not misbehave",
 "No evidence object that anybody can assemble from the messages honest parties signed (for any rounds, destinations and recipients of a session), from genuine evidence against others and from arbitrary own data verifies against a party that signed only messages prescribed by the protocol. Evidence that is genuine stops verifying when it is re-attributed to another party or when any of the messages it relies on is altered.",
 ["inputs","histories","fault_sequences"],
 "all re-combinations and alterations of the parts of genuine evidence and of all messages and echo packs signed during a session",
 "The tests contain no negative case for evidence at all, and the test signature scheme would accept forged data.",
 ["session/evidence.rs","session/echo.rs","session/message.rs","protocol/round_info.rs","protocol/evidence.rs"],
 [("signature and metadata checks on attached messages","session/evidence.rs: verify_message_parts"),("echo evidence checks","session/echo.rs: verify_evidence")],
 [], ["Evidence::verify"])

prop("C11", "Verifying evidence never fails on the verifier's side",
 "Verification of any deserializable evidence object, however malformed, terminates without a panic and without reporting a local error: the answer is either that the misbehavior is proven or that the evidence is invalid. Deserializing arbitrary bytes as evidence or as a message either succeeds or returns an error.",
 ["inputs"],
 "all byte strings and all structurally valid evidence objects, for plain and chained protocols and for rounds that define no errors",
 "No test feeds malformed evidence or messages.",
 ["session/evidence.rs","protocol/evidence.rs","combinators/chain.rs","protocol/round_info.rs","utils/serializable_map.rs"],
 [("error separation","session/evidence.rs: verify; protocol/evidence.rs: EvidenceError")],
 [], ["Evidence::verify"])

prop("C12", "A chained protocol equals running its two protocols one after the other",
 "For every pair of protocols, also when chained protocols are themselves chained, a chained session produces for every party the result obtained by running the first protocol, turning its result into the second protocol's inputs, and running the second. The rounds of both see the same messages, randomness seed and party identifier as when run alone, messages of one part never count for the other even where round numbers coincide, and parties that move on early are waited for.",
 ["programs","schedules","inputs","configurations"],
 "all pairs and nestings of protocol shapes x topologies x delivery orders",
 "One chain of the same two-round protocol with itself is tested, whose result does not depend on the first part.",
 ["combinators/chain.rs","protocol/round_id.rs","session/session.rs"],
 [("state hand-over","combinators/chain.rs: finalize"),("round id grouping","protocol/round_id.rs: group_under, split_group")],
 [], ["session reports", "arguments of inner rounds"])

prop("C13", "Round extensions change exactly what they override",
 "Wrapping an entry point as extendable without extensions, or with extensions that only delegate, changes neither messages, results nor errors of any protocol. An extension registered for a round type is applied in every round of that type that the party executes and in no other, its overrides replace precisely the calls they override and everything else is passed through. The helpers for testing provable errors accept a run exactly if every other party ends with one verifiable evidence, against the modified party and with the expected description.",
 ["programs","configurations","inputs","schedules"],
 "all sets of extensions over the round types of all protocol shapes, at any position in the run",
 "Only extensions of the first or second round of one protocol, each overriding one method, are exercised, together with one expected error.",
 ["dev/extend.rs","dev/misbehave.rs","protocol/dyn_round.rs"],
 [("wrapping of successive rounds","dev/extend.rs: wrap_round, PassthroughRound, ExtendedRound")],
 [], ["messages and reports with and without extensions"])

prop("C14", "The concurrent session drivers give the same outcomes as stepwise execution",
 "For every protocol, party count and timing of message arrival, driving a session with either asynchronous driver sends every message of every round exactly once and ends with the same result as driving it step by step, without getting stuck however many destinations or pending messages there are. A cancelled driver returns, at any point and with any amount of work in flight, a report saying it was terminated; a session that cannot be finalized any more ends with a not-enough-messages report.",
 ["schedules","configurations","fault_sequences"],
 "all protocol shapes x party counts (also over 100) x arrival timings x cancellation points, sequential and offloaded processing",
 "Two fixed runs with a handful of parties on one protocol; no cancellation, no errors, no large fan-out.",
 ["session/tokio.rs","dev/tokio.rs"],
 [("task joining and channel draining","session/tokio.rs: par_run_session"),("cancellation","session/tokio.rs: run_session, par_run_session")],
 [], ["driver return values", "outgoing channel"])

prop("C15", "What is put on the wire comes back unchanged in every format",
 "For every wire format a user can plug in (compact binary or self-describing), any session message, evidence object, round identifier or session identifier serialized and deserialized again is accepted and behaves exactly like the original, and serializes to the same bytes. The wire representation of a map keeps all entries, equals that of the list of pairs, and input with a repeated key is rejected.",
 ["inputs","configurations","programs"],
 "all messages and evidence produced by all protocol shapes x wire formats; all maps, including repeated keys anywhere",
 "Message serialization is not tested at all, evidence serialization neither; maps are tested on five fixed examples.",
 ["session/message.rs","session/evidence.rs","protocol/message.rs","protocol/round_id.rs","utils/serializable_map.rs","protocol/wire_format.rs","dev/wire_format.rs"],
 [("serde representations","session/message.rs"),("map representation","utils/serializable_map.rs")],
 [], ["serialized bytes", "sessions fed with re-decoded messages"])

prop("C16", "Every message is made with fresh randomness; broadcasts are made once",
 "Within a session no two message creations (different destinations, rounds, broadcasts, or signatures) draw the same randomness, whichever driver creates them and in whichever order or concurrently, and two sessions driven by differently seeded generators, or by the same runner, share none. All recipients of a round get the identical broadcasts, each created exactly once per round.",
 ["schedules","configurations","inputs"],
 "all protocol shapes x drivers x seeds x creation orders",
 "No test looks at the randomness used; repeating it would change no test result.",
 ["session/session.rs","session/tokio.rs","protocol/rng.rs"],
 [("per-task generators","session/tokio.rs: par_run_session"),("broadcasts created with the round","session/session.rs: new_for_next_round")],
 [], ["random values drawn by rounds and signers", "outgoing messages"])

prop("C17", "Session identifiers are a fixed one-to-one function of their seed",
 "Deriving a session identifier from the same seed always gives the same identifier on every node, different seeds give different identifiers, random identifiers do not repeat, and identifiers with different bytes are unequal, ordered consistently and survive serialization. Protocol entry points and evidence verification receive exactly the bytes of the session identifier as shared randomness.",
 ["inputs","configurations"],
 "all seeds (including empty, long and near-identical ones) and hash functions",
 "Tests use only random identifiers of one length.",
 ["session/session.rs","session/evidence.rs"],
 [("derivation","session/session.rs: SessionId::from_seed")],
 [], ["SessionId::from_seed", "entry point arguments"])

prop("C18", "The synchronous runner drives any honest network to its results",
 "For any number of parties including one, any protocol (also ones that send no messages) and any random seed, the synchronous runner terminates and returns one report per party, each with the result of step-by-step execution; the bundled example protocols return the results their descriptions define. A party that cannot be served ends with a terminated report instead of an endless run.",
 ["configurations","programs","schedules","inputs"],
 "all protocol shapes, party counts >= 1 and seeds, honest and with silent parties",
 "Runs with 2, 3 and 5 parties of three fixed protocols; no single-party or message-free run.",
 ["dev/run_sync.rs","examples/src/simple.rs","examples/src/simple_chain.rs"],
 [("message queue and propagation","dev/run_sync.rs: run_sync, propagate")],
 [], ["ExecutionResult"])

prop("C19", "Local misuse and protocol bugs are reported, not absorbed",
 "Adding a message or artifact a second time, moving to a round that was not announced, or a round that should send a message part but does not create one is answered with a local error and never with a corrupted continuation. A local error returned by protocol code (entry point, message creation, receiving, finalization) surfaces from the session call that ran it and is never charged to a remote party.",
 ["programs","histories","inputs"],
 "all protocol shapes with one such bug at any round and place, and all sessions with a repeated call at any point",
 "No test exercises any local error path.",
 ["session/session.rs","protocol/round.rs","protocol/dyn_round.rs"],
 [("bookkeeping checks","session/session.rs: add_artifact, add_processed_message, finalize_round"),("default methods","protocol/round.rs: make_direct_message")],
 [], ["return values of the session calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))
