From afdffa4ec9c6c9e1e0ab3b968ef817d021d808ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 01/19] fix: keep the messages for the next round cached while
 in the echo round

---
 manul/src/session/session.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fc90233..cd9e8d1 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,6 +119,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    // Messages for the upcoming rounds that were cached before this round started.
+    cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -220,6 +222,7 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            cached: BTreeMap::new(),
         })
     }
 
@@ -422,7 +425,7 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from)
+        RoundAccumulator::new(&self.communication_info.expecting_messages_from, self.cached.clone())
     }
 
     fn terminate_inner(
@@ -493,9 +496,13 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
-            let session =
+            // Besides the messages for the echo round, there may be cached messages for the rounds following it.
+            // They will be needed when the echo round is finalized.
+            let mut cached = accum.cached;
+            let cached_messages = take_messages(&mut cached, &round.as_ref().transition_info().id);
+            let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+            session.cached = cached;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -518,7 +525,8 @@ where
                 // processing messages from the same node for the current round.
                 // So there might have been some new errors, and we need to check again
                 // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, &round_id)
+                let mut cached = accum.cached;
+                let cached_messages = take_messages(&mut cached, &round_id)
                     .into_iter()
                     .filter(|message| !transcript.is_banned(message.from()))
                     .collect::<Vec<_>>();
@@ -572,14 +580,17 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(
+        expecting_messages_from: &BTreeSet<SP::Verifier>,
+        cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
             processing: BTreeSet::new(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
-            cached: BTreeMap::new(),
+            cached,
             echo_broadcasts: BTreeMap::new(),
             normal_broadcasts: BTreeMap::new(),
             direct_messages: BTreeMap::new(),
@@ -805,13 +816,13 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
-fn filter_messages<Verifier>(
-    messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
+fn take_messages<Verifier>(
+    messages: &mut BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
     round_id: &RoundId,
 ) -> Vec<VerifiedMessage<Verifier>> {
     messages
-        .into_values()
-        .filter_map(|mut messages| messages.remove(round_id))
+        .values_mut()
+        .filter_map(|messages| messages.remove(round_id))
         .collect()
 }
 
-- 
2.43.0


From 73c97996c22d2c257e6b13d2de327bd7cad2f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 02/19] fix: reject messages from parties the round does not
 expect messages from

---
 manul/src/session/session.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index cd9e8d1..cbd9e7b 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -341,6 +341,12 @@ where
             .simultaneous_rounds(self.echo_round_info.is_some())?;
 
         let message_for = if message_round_id == self.round_id() {
+            if !self.communication_info.expecting_messages_from.contains(from) {
+                let err = "No message is expected from this party in this round";
+                accum.register_unprovable_error(from, RemoteError::new(err))?;
+                trace!("[{key:?}] {err}");
+                return Ok(PreprocessOutcome::remote_error(err));
+            }
             if accum.message_is_being_processed(from) {
                 let err = "Message from this party is already being processed";
                 accum.register_unprovable_error(from, RemoteError::new(err))?;
@@ -488,6 +494,7 @@ where
         )?;
 
         if let Some(echo_round_info) = self.echo_round_info {
+            let expecting_messages_from = echo_round_info.expecting_messages_from.clone();
             let round = BoxedRound::new_dynamic(EchoRound::<P, SP>::new(
                 verifier,
                 transcript.echo_broadcasts(&round_id)?,
@@ -499,7 +506,10 @@ where
             // Besides the messages for the echo round, there may be cached messages for the rounds following it.
             // They will be needed when the echo round is finalized.
             let mut cached = accum.cached;
-            let cached_messages = take_messages(&mut cached, &round.as_ref().transition_info().id);
+            let cached_messages = take_messages(&mut cached, &round.as_ref().transition_info().id)
+                .into_iter()
+                .filter(|message| expecting_messages_from.contains(message.from()))
+                .collect::<Vec<_>>();
             let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
             session.cached = cached;
@@ -525,10 +535,14 @@ where
                 // processing messages from the same node for the current round.
                 // So there might have been some new errors, and we need to check again
                 // if the sender is already banned.
+                // Also, it was not known until now whose messages the new round expects.
+                let expecting_messages_from = round.as_ref().communication_info().expecting_messages_from;
                 let mut cached = accum.cached;
                 let cached_messages = take_messages(&mut cached, &round_id)
                     .into_iter()
-                    .filter(|message| !transcript.is_banned(message.from()))
+                    .filter(|message| {
+                        !transcript.is_banned(message.from()) && expecting_messages_from.contains(message.from())
+                    })
                     .collect::<Vec<_>>();
 
                 let session =
-- 
2.43.0


From 785c16492bcb3df9b23e78f0e4ab01757d87021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 03/19] fix: treat the parties whose cached messages are
 applied as being processed

---
 manul/src/session/session.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index cbd9e7b..73b024f 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,6 +119,9 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    // The senders of the messages for this round that were cached before it started.
+    // These messages have already been handed to the user for processing.
+    processing: BTreeSet<SP::Verifier>,
     // Messages for the upcoming rounds that were cached before this round started.
     cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
 }
@@ -222,6 +225,7 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            processing: BTreeSet::new(),
             cached: BTreeMap::new(),
         })
     }
@@ -431,7 +435,11 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from, self.cached.clone())
+        RoundAccumulator::new(
+            &self.communication_info.expecting_messages_from,
+            self.processing.clone(),
+            self.cached.clone(),
+        )
     }
 
     fn terminate_inner(
@@ -512,6 +520,7 @@ where
                 .collect::<Vec<_>>();
             let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+            session.processing = senders(&cached_messages);
             session.cached = cached;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
@@ -545,8 +554,9 @@ where
                     })
                     .collect::<Vec<_>>();
 
-                let session =
+                let mut session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+                session.processing = senders(&cached_messages);
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -596,12 +606,13 @@ where
 {
     fn new(
         expecting_messages_from: &BTreeSet<SP::Verifier>,
+        processing: BTreeSet<SP::Verifier>,
         cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
     ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
-            processing: BTreeSet::new(),
+            processing,
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
             cached,
@@ -830,6 +841,10 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
+fn senders<Verifier: Clone + Ord>(messages: &[VerifiedMessage<Verifier>]) -> BTreeSet<Verifier> {
+    messages.iter().map(|message| message.from().clone()).collect()
+}
+
 fn take_messages<Verifier>(
     messages: &mut BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
     round_id: &RoundId,
-- 
2.43.0


From fd53ee1f806ae41bd6e5f7e97079d03ce45e99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 04/19] fix: do not apply the cached echo round messages of
 banned parties

---
 manul/src/session/session.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 73b024f..6764466 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -516,7 +516,9 @@ where
             let mut cached = accum.cached;
             let cached_messages = take_messages(&mut cached, &round.as_ref().transition_info().id)
                 .into_iter()
-                .filter(|message| expecting_messages_from.contains(message.from()))
+                .filter(|message| {
+                    !transcript.is_banned(message.from()) && expecting_messages_from.contains(message.from())
+                })
                 .collect::<Vec<_>>();
             let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-- 
2.43.0


From e42015b4eef71a503d38d0b5e193824ea30af6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 05/19] fix: do not wait for messages from the parties that are
 already banned

---
 manul/src/session/session.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 6764466..dbcc63b 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -569,7 +569,7 @@ where
 
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
-        accum.can_finalize()
+        accum.can_finalize(&self.transcript)
     }
 }
 
@@ -626,14 +626,18 @@ where
         }
     }
 
-    fn can_finalize(&self) -> CanFinalize {
+    fn can_finalize(&self, transcript: &Transcript<P, SP>) -> CanFinalize {
+        // No more messages will be accepted from a banned party, but one may be still being processed.
+        let can_respond = |key: &SP::Verifier| {
+            self.message_is_being_processed(key) || !(self.is_banned(key) || transcript.is_banned(key))
+        };
         if self
             .expecting_messages_from
             .iter()
             .all(|key| self.payloads.contains_key(key))
         {
             CanFinalize::Yes
-        } else if !self.still_have_not_sent_messages.is_empty() {
+        } else if self.still_have_not_sent_messages.iter().any(can_respond) {
             CanFinalize::NotYet
         } else {
             CanFinalize::Never
-- 
2.43.0


From 597a8f736c5111fb0377cac17093f82144e49c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 06/19] fix: report not-enough-messages only when the session
 is terminated because of errors

---
 manul/src/session/session.rs |  2 +-
 manul/src/session/tokio.rs   | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index dbcc63b..259e6bc 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -478,7 +478,7 @@ where
     /// Will be usually called after receiving [`CanFinalize::Never`] from
     /// [`can_finalize`](`Self::can_finalize`).
     pub fn terminate_due_to_errors(self, accum: RoundAccumulator<P, SP>) -> Result<SessionReport<P, SP>, LocalError> {
-        self.terminate_inner(accum, false)
+        self.terminate_inner(accum, true)
     }
 
     /// Attempts to finalize the current round.
diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 34bcd31..9048cf7 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -143,7 +143,7 @@ where
                     message_in.ok_or_else(|| LocalError::new("The incoming message channel was closed unexpectedly"))?
                 },
                 _ = cancellation.cancelled() => {
-                    return session.terminate_due_to_errors(accum);
+                    return session.terminate(accum);
                 }
             };
 
@@ -279,12 +279,12 @@ where
 
         let can_finalize = loop {
             match session.can_finalize(&accum) {
-                CanFinalize::Yes => break true,
+                CanFinalize::Yes => break CanFinalize::Yes,
                 CanFinalize::NotYet => {}
                 // Due to already registered invalid messages from nodes,
                 // even if the remaining nodes send correct messages, it won't be enough.
                 // Terminating.
-                CanFinalize::Never => break false,
+                CanFinalize::Never => break CanFinalize::Never,
             }
 
             tokio::select! {
@@ -332,7 +332,7 @@ where
                     }
                 },
                 _ = cancellation.cancelled() => {
-                    break false;
+                    break CanFinalize::NotYet;
                 }
             }
         };
@@ -373,8 +373,11 @@ where
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-        if !can_finalize {
-            return session_inner.terminate_due_to_errors(accum);
+        match can_finalize {
+            CanFinalize::Yes => {}
+            // Cancelled by the user
+            CanFinalize::NotYet => return session_inner.terminate(accum),
+            CanFinalize::Never => return session_inner.terminate_due_to_errors(accum),
         }
 
         match session_inner.finalize_round(rng, accum)? {
-- 
2.43.0


From 02fab632b4c4460330c580f08162cb00c6355e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 07/19] fix: attribute mismatched broadcasts to the party that
 made them

---
 manul/src/session/session.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 259e6bc..ee947e4 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -670,14 +670,11 @@ where
         }
     }
 
-    fn register_provable_error(&mut self, from: &SP::Verifier, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
-        if self.provable_errors.insert(from.clone(), evidence).is_some() {
-            Err(LocalError::new(format!(
-                "A provable error for {from:?} is already registered",
-            )))
-        } else {
-            Ok(())
-        }
+    // Note that in the echo round there can be several independent pieces of evidence against the same party
+    // (from its own message, and from the messages of those who expose its broadcasts as mismatched).
+    // It is enough to keep the first one.
+    fn register_provable_error(&mut self, guilty_party: &SP::Verifier, evidence: Evidence<P, SP>) {
+        self.provable_errors.entry(guilty_party.clone()).or_insert(evidence);
     }
 
     fn mark_processing(&mut self, message: &VerifiedMessage<SP::Verifier>) -> Result<(), LocalError> {
@@ -750,17 +747,20 @@ where
             BoxedReceiveError::InvalidDirectMessage(error) => {
                 let (_echo_broadcast, _normal_broadcast, direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_direct_message(&from, direct_message, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidEchoBroadcast(error) => {
                 let (echo_broadcast, _normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_echo_broadcast(&from, echo_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidNormalBroadcast(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_normal_broadcast(&from, normal_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::Protocol(boxed_error) => {
                 let (echo_broadcast, normal_broadcast, direct_message) = processed.message.into_parts();
@@ -773,7 +773,8 @@ where
                     boxed_error,
                     transcript,
                 )?;
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::Unprovable(error) => {
                 self.unprovable_errors.insert(from.clone(), error);
@@ -781,8 +782,11 @@ where
             }
             BoxedReceiveError::Echo(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
-                let evidence = Evidence::new_echo_round_error(&from, normal_broadcast, *error)?;
-                self.register_provable_error(&from, evidence)
+                let evidence = Evidence::<P, SP>::new_echo_round_error(&from, normal_broadcast, *error)?;
+                // The guilty party is not necessarily the sender of the echo round message.
+                let guilty_party = evidence.guilty_party().clone();
+                self.register_provable_error(&guilty_party, evidence);
+                Ok(())
             }
             BoxedReceiveError::Local(error) => Err(error),
         }
-- 
2.43.0


From 29d9a3295e1f05da5e935e9735bbdb43f9e05a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 08/19] fix: bind the message part kind to the signature

---
 manul/src/protocol.rs         |  4 ++--
 manul/src/protocol/message.rs | 17 ++++++++++++-----
 manul/src/session/message.rs  | 12 +++++++++---
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/manul/src/protocol.rs b/manul/src/protocol.rs
index 9a74c83..7258a62 100644
--- a/manul/src/protocol.rs
+++ b/manul/src/protocol.rs
@@ -38,8 +38,8 @@ pub(crate) use dyn_evidence::{BoxedProtocolError, SerializedProtocolError};
 pub(crate) use dyn_round::{Artifact, BoxedReceiveError, DynRound, Payload};
 pub(crate) use evidence::EvidenceProtocolMessage;
 pub(crate) use message::{
-    DirectMessage, DirectMessageError, DynProtocolMessage, EchoBroadcast, EchoBroadcastError, NormalBroadcast,
-    NormalBroadcastError, ProtocolMessagePart, ProtocolMessagePartHashable,
+    DirectMessage, DirectMessageError, DynProtocolMessage, EchoBroadcast, EchoBroadcastError, HasPartKind,
+    NormalBroadcast, NormalBroadcastError, PartKind, ProtocolMessagePart, ProtocolMessagePartHashable,
 };
 pub(crate) use rng::BoxedRng;
 pub(crate) use round::NoType;
diff --git a/manul/src/protocol/message.rs b/manul/src/protocol/message.rs
index 09f3cf1..98c879a 100644
--- a/manul/src/protocol/message.rs
+++ b/manul/src/protocol/message.rs
@@ -129,6 +129,17 @@ pub(crate) enum PartKind {
     DirectMessage,
 }
 
+impl PartKind {
+    /// A unique tag of the message part kind, used for the domain separation when hashing.
+    pub fn tag(&self) -> u8 {
+        match self {
+            Self::EchoBroadcast => 0,
+            Self::NormalBroadcast => 1,
+            Self::DirectMessage => 2,
+        }
+    }
+}
+
 pub(crate) trait HasPartKind {
     const KIND: PartKind;
 }
@@ -137,11 +148,7 @@ pub(crate) trait HasPartKind {
 pub(crate) trait ProtocolMessagePartHashable: ProtocolMessagePart + HasPartKind {
     fn hash<D: Digest>(&self) -> digest::Output<D> {
         let mut digest = D::new_with_prefix(b"ProtocolMessagePart");
-        match Self::KIND {
-            PartKind::EchoBroadcast => digest.update([0u8]),
-            PartKind::NormalBroadcast => digest.update([1u8]),
-            PartKind::DirectMessage => digest.update([2u8]),
-        }
+        digest.update([Self::KIND.tag()]);
         match self.maybe_message().as_ref() {
             None => digest.update([0u8]),
             Some(payload) => {
diff --git a/manul/src/session/message.rs b/manul/src/session/message.rs
index 5463ce5..9cf4a5a 100644
--- a/manul/src/session/message.rs
+++ b/manul/src/session/message.rs
@@ -12,7 +12,8 @@ use super::{
     LocalError,
 };
 use crate::protocol::{
-    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, ProtocolMessagePartHashable, RoundId,
+    DirectMessage, EchoBroadcast, EvidenceError, HasPartKind, NormalBroadcast, PartKind, ProtocolMessagePartHashable,
+    RoundId,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
@@ -107,13 +108,17 @@ pub struct MessageWithMetadata<M> {
     message: M,
 }
 
+// The part kind has to be included explicitly: when only the hash of a message part is known,
+// there is no other way to tell that it was not the hash of a part of another kind that was signed.
 fn message_digest<SP: SessionParameters>(
     metadata: &MessageMetadata,
+    part_kind: PartKind,
     message_part_hash: &[u8],
 ) -> Result<SP::Digest, LocalError> {
     let message_part_hash_len =
         u64::try_from(message_part_hash.as_ref().len()).expect("message part hash length does not exceed 18 exabytes");
     Ok(SP::Digest::new_with_prefix(b"SignedMessagePartDigest")
+        .chain_update([part_kind.tag()])
         .chain_update(SP::WireFormat::serialize(metadata)?)
         .chain_update(message_part_hash_len.to_be_bytes())
         .chain_update(message_part_hash))
@@ -125,7 +130,7 @@ impl<M: ProtocolMessagePartHashable> MessageWithMetadata<M> {
         SP: SessionParameters,
     {
         let message_part_hash = self.message.hash::<SP::Digest>();
-        let digest = message_digest::<SP>(&self.metadata, &message_part_hash)?;
+        let digest = message_digest::<SP>(&self.metadata, M::KIND, &message_part_hash)?;
         Ok(digest)
     }
 }
@@ -389,7 +394,8 @@ impl SignedMessageHash {
     where
         SP: SessionParameters,
     {
-        let digest = message_digest::<SP>(&self.metadata, &self.message_part_hash)?;
+        // Only the echo broadcasts are echoed as hashes
+        let digest = message_digest::<SP>(&self.metadata, EchoBroadcast::KIND, &self.message_part_hash)?;
         let signature = self.signature.deserialize::<SP>()?;
         verifier.verify_digest(digest, &signature)?;
         Ok(VerifiedMessageHash {
-- 
2.43.0


From ebb4f0905478176a9e43be468f451cef9392a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 09/19] fix: check that mismatched broadcasts were made by the
 accused party

---
 manul/src/session/evidence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index fad53f0..72ed79a 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -205,7 +205,7 @@ where
             EvidenceEnum::InvalidEchoBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidNormalBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidEcho(evidence) => evidence.verify::<SP>(&self.guilty_party, &format),
-            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(),
+            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(&self.guilty_party),
         }
     }
 }
@@ -253,8 +253,13 @@ pub struct MismatchedBroadcastsEvidence<Id> {
     error: MismatchedBroadcastsError<Id>,
 }
 
-impl<Id> MismatchedBroadcastsEvidence<Id> {
-    fn verify<SP: SessionParameters<Verifier = Id>>(&self) -> Result<(), EvidenceError> {
+impl<Id: PartyId> MismatchedBroadcastsEvidence<Id> {
+    fn verify<SP: SessionParameters<Verifier = Id>>(&self, verifier: &SP::Verifier) -> Result<(), EvidenceError> {
+        if self.error.guilty_party() != verifier {
+            return Err(EvidenceError::InvalidEvidence(
+                "The attached messages are from a different party".into(),
+            ));
+        }
         self.error.verify_evidence::<SP>()
     }
 }
-- 
2.43.0


From 612f4befaf5a07e9a37bd2f04955683abbb9a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 10/19] fix: do not consider correct echoed messages an
 evidence of an invalid echo

---
 manul/src/session/echo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index a9ff8c0..8e4f1c4 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -57,6 +57,12 @@ impl<Id: PartyId> InvalidEchoError<Id> {
         metadata: &MessageMetadata,
         message: &EchoRoundMessage<SP::Verifier>,
     ) -> Result<(), EvidenceError> {
+        let main_round_id = metadata
+            .round_id()
+            .non_echo()
+            .map_err(|_err| EvidenceError::InvalidEvidence("The attached message is not from an echo round".into()))?;
+        let expected_metadata = MessageMetadata::new(metadata.session_id(), &main_round_id);
+
         let invalid_echo = message.message_hashes.get(&self.invalid_echo_sender).ok_or_else(|| {
             EvidenceError::InvalidEvidence(format!(
                 "Did not find {:?} in the attached message",
@@ -74,7 +80,7 @@ impl<Id: PartyId> InvalidEchoError<Id> {
 
         // `from` sent us a correctly signed message but from another round or another session.
         // Provable fault of `from`.
-        if verified_echo.metadata() != metadata {
+        if verified_echo.metadata() != &expected_metadata {
             return Ok(());
         }
 
-- 
2.43.0


From 19138a6f7c4c47ca8796aee8345d1080f5a32144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 11/19] fix: do not panic on an evidence for a round without
 provable errors

---
 manul/src/protocol/evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/protocol/evidence.rs b/manul/src/protocol/evidence.rs
index 83ab481..b19c40a 100644
--- a/manul/src/protocol/evidence.rs
+++ b/manul/src/protocol/evidence.rs
@@ -272,7 +272,10 @@ where
         _shared_data: &<<Self::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData,
         _messages: EvidenceMessages<'_, Id, Self::Round>,
     ) -> Result<(), EvidenceError> {
-        panic!("Methods of `NoProtocolErrors` should not be called during normal operation.")
+        // Unlike the other methods, this one can be reached via a deserialized evidence made by a malicious party.
+        Err(EvidenceError::InvalidEvidence(
+            "No provable errors are defined for this round".into(),
+        ))
     }
 }
 
-- 
2.43.0


From f64239c500a28860ab45e37119ae6e942934b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 12/19] fix: treat foreign round IDs in an evidence for a
 chained protocol as an invalid evidence

---
 manul/src/combinators/chain.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/manul/src/combinators/chain.rs b/manul/src/combinators/chain.rs
index 4204fa3..49f4b6d 100644
--- a/manul/src/combinators/chain.rs
+++ b/manul/src/combinators/chain.rs
@@ -96,10 +96,19 @@ fn ungroup(expected_group: GroupNum, round_id: &RoundId) -> Result<RoundId, Loca
     Ok(round_id)
 }
 
-fn ungroup_map<T>(expected_group: GroupNum, grouped: BTreeMap<RoundId, T>) -> Result<BTreeMap<RoundId, T>, LocalError> {
+fn ungroup_map<T>(
+    expected_group: GroupNum,
+    grouped: BTreeMap<RoundId, T>,
+) -> Result<BTreeMap<RoundId, T>, EvidenceError> {
+    // The keys come from the evidence, so if they are invalid, it is not a local error.
     grouped
         .into_iter()
-        .map(|(round_id, value)| ungroup(expected_group, &round_id).map(|round_id| (round_id, value)))
+        .map(|(round_id, value)| match ungroup(expected_group, &round_id) {
+            Ok(round_id) => Ok((round_id, value)),
+            Err(error) => Err(EvidenceError::InvalidEvidence(format!(
+                "Invalid round ID of an attached message: {error:?}"
+            ))),
+        })
         .collect()
 }
 
-- 
2.43.0


From 1585462ef725053268bba389afb8ef481045154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 13/19] fix: do not let the input choose how much memory to
 allocate for a round ID

---
 manul/src/protocol/round_id.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/manul/src/protocol/round_id.rs b/manul/src/protocol/round_id.rs
index 9659c18..5c6bcca 100644
--- a/manul/src/protocol/round_id.rs
+++ b/manul/src/protocol/round_id.rs
@@ -1,7 +1,7 @@
-use alloc::collections::BTreeSet;
+use alloc::{collections::BTreeSet, vec::Vec};
 use core::fmt::{self, Debug, Display};
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 use tinyvec::TinyVec;
 
 use super::errors::LocalError;
@@ -15,10 +15,17 @@ pub(crate) type GroupNum = u8;
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct RoundId {
     round: RoundNum,
+    #[serde(deserialize_with = "deserialize_groups")]
     groups: TinyVec<[GroupNum; 4]>,
     is_echo: bool,
 }
 
+// `TinyVec` allocates the space for as many elements as the input claims to have,
+// panicking if that's too much. `Vec` does not trust the input.
+fn deserialize_groups<'de, D: Deserializer<'de>>(deserializer: D) -> Result<TinyVec<[GroupNum; 4]>, D::Error> {
+    Vec::<GroupNum>::deserialize(deserializer).map(|groups| groups.as_slice().into())
+}
+
 impl Display for RoundId {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
         write!(f, "Round ")?;
-- 
2.43.0


From aa42cf28a5bf39f669440d6b7b65d43c6e891499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 14/19] fix: do not let the asynchronous runner get stuck if a
 node's channel is full

---
 manul/src/dev/tokio.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 944456e..78c8cec 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -44,21 +44,26 @@ where
             // Pull a random message from the list,
             // to increase the chances that they are delivered out of order.
             let message_idx = rng.gen_range(0..messages.len());
-            let outgoing = messages.swap_remove(message_idx);
-
-            txs.get(&outgoing.to)
-                .ok_or_else(|| {
-                    LocalError::new(format!(
-                        "Destination ({:?}) is missing in the map of channels",
-                        outgoing.to
-                    ))
-                })?
-                .send(MessageIn {
-                    from: outgoing.from,
-                    message: outgoing.message,
-                })
-                .await
-                .map_err(|err| LocalError::new(format!("Could not sent an outgoing message: {err}")))?;
+            let tx = txs.get(&messages[message_idx].to).ok_or_else(|| {
+                LocalError::new(format!(
+                    "Destination ({:?}) is missing in the map of channels",
+                    messages[message_idx].to
+                ))
+            })?;
+
+            match tx.try_reserve() {
+                Ok(permit) => {
+                    let outgoing = messages.swap_remove(message_idx);
+                    permit.send(MessageIn {
+                        from: outgoing.from,
+                        message: outgoing.message,
+                    });
+                }
+                // The recipient may itself be waiting for us to pick up its messages,
+                // so we cannot wait for it here. The message will be delivered later.
+                Err(mpsc::error::TrySendError::Full(())) => {}
+                Err(err) => return Err(LocalError::new(format!("Could not sent an outgoing message: {err}"))),
+            }
 
             // Give up execution so that the tasks could process messages.
             tokio::time::sleep(tokio::time::Duration::from_millis(0)).await;
-- 
2.43.0


From 3b6b82752d524b1489ed824c30335f6c6df251f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 15/19] fix: drain the channels before joining the tasks of a
 session

---
 manul/src/session/tokio.rs | 40 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 9048cf7..235919d 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -339,6 +339,31 @@ where
 
         debug!("{my_id}: Finalizing the round {}", session.round_id());
 
+        // Drop our copies of `Sender`s to let the channels close.
+        drop(outgoing_tx);
+        drop(processed_tx);
+
+        // Send all the remaining messages and register all the remaining processed ones.
+        // The channels must be drained before joining the tasks,
+        // otherwise the tasks may be left waiting for a place in a channel.
+        loop {
+            tokio::select! {
+                Some((message_out, artifact)) = outgoing_rx.recv() => {
+                    let from = message_out.from.clone();
+                    let to = message_out.to.clone();
+                    tx.send(message_out).await.map_err(|err| {
+                        LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",))
+                    })?;
+
+                    session.add_artifact(&mut accum, artifact)?;
+                }
+                Some(processed) = processed_rx.recv() => {
+                    session.add_processed_message(&mut accum, processed)?;
+                }
+                else => break,
+            }
+        }
+
         // Join all the handles created in this iteration.
 
         for message_creation_task in message_creation_tasks {
@@ -353,21 +378,6 @@ where
                 .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
         }
 
-        // Drop our copies of `Sender`s to let the channels close.
-        drop(outgoing_tx);
-        drop(processed_tx);
-
-        // Send all the remaining messages
-        while let Some((message_out, artifact)) = outgoing_rx.recv().await {
-            let from = message_out.from.clone();
-            let to = message_out.to.clone();
-            tx.send(message_out)
-                .await
-                .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",)))?;
-
-            session.add_artifact(&mut accum, artifact)?;
-        }
-
         debug!("{my_id}: Sent out all remaining messages");
 
         let session_inner = Arc::into_inner(session)
-- 
2.43.0


From 8b24a6a03379eea3da235daf4e75209398d82823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 16/19] fix: do not panic in the synchronous runner if there
 are no messages

---
 manul/src/dev/run_sync.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/manul/src/dev/run_sync.rs b/manul/src/dev/run_sync.rs
index 5fd9c8f..9330622 100644
--- a/manul/src/dev/run_sync.rs
+++ b/manul/src/dev/run_sync.rs
@@ -212,7 +212,7 @@ where
         states.insert(verifier, state);
     }
 
-    loop {
+    while !messages.is_empty() {
         // Pick a random message and deliver it
         let message = messages.pop(rng);
 
@@ -247,13 +247,10 @@ where
             state
         };
         states.insert(message.to.clone(), new_state);
-
-        if messages.is_empty() {
-            trace!("All messages delivered, exiting loop");
-            break;
-        }
     }
 
+    trace!("All messages delivered");
+
     let mut reports = BTreeMap::new();
     for (verifier, state) in states {
         let report = match state {
-- 
2.43.0


From 8f7218671e6c00455adec9f5258c2d9e0a3c38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 17/19] fix: give each node of the asynchronous runner its own
 randomness

---
 manul/src/dev/tokio.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 78c8cec..b28a1ef 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -3,7 +3,8 @@
 use alloc::{collections::BTreeMap, format, vec::Vec};
 
 use rand::Rng;
-use rand_core::CryptoRngCore;
+use rand_chacha::ChaCha20Rng;
+use rand_core::{CryptoRngCore, SeedableRng};
 use signature::Keypair;
 use tokio::sync::mpsc;
 use tokio_util::sync::CancellationToken;
@@ -112,7 +113,8 @@ where
         .zip(entry_points.into_iter())
         .map(|(mut rx, (signer, entry_point))| {
             let tx = dispatcher_tx.clone();
-            let mut rng = rng.clone();
+            // The nodes must not share the randomness, so the provided RNG is used to seed theirs.
+            let mut rng = ChaCha20Rng::from_rng(&mut *rng).map_err(|_| LocalError::new("Can't fork the RNG"))?;
 
             let session = Session::<_, SP>::new(&mut rng, session_id.clone(), signer, entry_point)?;
             let id = session.verifier().clone();
-- 
2.43.0


From a6ffe17b3436c8c72e9155e2aa40edb174ea1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 18/19] fix: allow the entry points of chained protocols to be
 wrapped as extendable ones

---
 manul/src/dev/extend.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/manul/src/dev/extend.rs b/manul/src/dev/extend.rs
index 6262fad..c687887 100644
--- a/manul/src/dev/extend.rs
+++ b/manul/src/dev/extend.rs
@@ -311,6 +311,11 @@ fn wrap_round<Id: PartyId, P: Protocol<Id>>(
     round: BoxedRound<Id, P>,
     extensions: BTreeMap<TypeId, Box<dyn DynRoundExtension<Id, P>>>,
 ) -> Result<BoxedRound<Id, P>, LocalError> {
+    // Without extensions there is nothing to look up; in particular, the round is not required to be a typed one
+    // (the rounds of chained protocols are not).
+    if extensions.is_empty() {
+        return Ok(BoxedRound::new_dynamic(PassthroughRound { round, extensions }));
+    }
     if let Some(extension) = extensions.get(&round.as_typed()?.type_id()) {
         let extension: Box<dyn DynRoundExtension<Id, P>> = extension.clone_boxed();
         // This will only panic if the fetched element was previously added to `extensions` with a wrong key.
-- 
2.43.0


From ec2adac1e321d1f934b2ba60e9935cdce4443da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 19/19] fix: keep the first artifact if another one for the
 same destination is refused

---
 manul/src/session/session.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index ee947e4..6c90b70 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -691,16 +691,13 @@ where
     // Add a processed artifact to the accumulator.
     // Returns an error if the artifact was already present.
     fn add_artifact(&mut self, processed: ProcessedArtifact<SP>) -> Result<(), LocalError> {
-        if self
-            .artifacts
-            .insert(processed.destination.clone(), processed.artifact)
-            .is_some()
-        {
+        if self.artifacts.contains_key(&processed.destination) {
             return Err(LocalError::new(format!(
                 "Artifact for destination {:?} has already been recorded",
                 processed.destination
             )));
         }
+        self.artifacts.insert(processed.destination, processed.artifact);
         Ok(())
     }
 
-- 
2.43.0

