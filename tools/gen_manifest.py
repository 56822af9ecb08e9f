#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing: "
CHECKS = {
 "C01": ("generated protocols and schedules against a reference simulation (stateful, shrinking)",
         "Random search over generated protocol programs, topologies and interleavings of the session calls; trusts the generated protocol's own reference result."),
 "C03": ("stateful fuzzing of a session with adversarial messages interleaved with honest traffic; no-local-error/no-panic oracle",
         "Random structured attacks plus byte-level mutations; the arena's bookkeeping model is trusted."),
 "C04": ("structured mutation/splicing/replay of genuine messages against a classification oracle",
         "Trusts the harness signature scheme (a hash MAC that binds every signed bit) and its registry of what was signed."),
 "C05": ("stateful generation of offences mixed with valid and cached messages against a reference model of bans",
         "Random search; model of offences is the statement's, not the code's."),
 "C06": ("stateful generation against a reference model of finalizability and of the final report",
         "Random search; the model is recomputed from the delivered history after every call."),
 "C08": ("adversarial network simulation; invariant: no error names an honest party",
         "Random search over attack strategies."),
  "C07": ("simulation with equivocating and colluding parties; agreement and detection invariants over the history",
         "Random search; which broadcasts each party was shown is recorded at delivery."),
  "C09": ("simulation with lying parties; every report's evidence is verified by a third party, before and after serialization",
         "Provability of the generated protocol's errors follows its own rules; framework errors are claimed by the attacker model."),
  "C10": ("structured forgery of evidence (framing honest parties, re-attribution, altered content) from materials of simulated sessions; soundness oracle",
         "Soundness judged by what the accused's key really signed; random search over forgeries."),
  "C11": ("structured and byte-level fuzzing of serialized evidence; totality and verdict-stability oracle",
         "No panic, no local error, same verdict on every verification of the same evidence; random search."),
  "C14": ("generated protocols, transports and cancellations for the concurrent drivers, against a fixpoint model of how each session ends",
         "Random search over transport schedules on a single-threaded runtime with offloading threads; timing of the threads is not controlled. A driver that makes no progress for 25 s counts as stuck."),
  "C16": ("generated executions (stepwise, drivers, runners) with every random draw recorded; invariant: all values differ, broadcasts created once and identical",
         "Observes the values drawn by the protocol code and by the signatures; 64-bit collisions are ignored."),
  "C18": ("generated protocols (also without messages, with offending parties) for the synchronous runner, against the protocol's reference results; example protocols against their definition",
         "Restricted to protocols in which nobody runs two rounds ahead of a recipient."),
  "C02": ("generated protocols, schedules and hostile traffic; every receive, artifact and finalize call of the rounds compared with what the senders created",
         "The rounds of the generated protocols record what they are given; random search."),
  "C13": ("differential: the same generated run (protocol, schedule, randomness) with and without extensions, against a model of what each extension overrides",
         "Extensions of every subset of the overridable calls, for plain protocols (chained ones only wrapped without extensions); random search."),
  "C19": ("stateful generation of misuses of the session interface and of faulty protocol implementations; local error exactly when due, otherwise no effect on the run (differential)",
         "The list of misuses is the harness's; the run with misuses is compared call by call with the same run without."),
  "C15": ("differential and round-trip checks on generated runs, evidence (genuine and garbled), identifiers, contents and maps in seven serializers",
         "Formats: postcard, JSON, JSON value trees, bincode, their reader variants, DER for maps; random search."),
  "C17": ("generated sets of related seeds (determinism, distinctness, order laws, round trips) and generated runs recording what entry points and evidence verification are given",
         "Hash collisions among the generated inputs are assumed away; five hash functions."),
  "C12": ("differential: chained generated protocols against the sequential composition of their reference results",
         "Random search over trees of generated protocols with 2 to 4 parts."),
}
PENDING = "check under construction"
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./run.sh build",
  checks=[dict(property=p, quick_cmd=f"./run.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p}",
               technique=TECH + CHECKS[p][0], level="exploration", level_note=CHECKS[p][1]) for p in props if p in CHECKS],
  not_applicable=[dict(property=p, reason=PENDING) for p in props if p not in CHECKS],
  notes="No hooks in /repo are needed: every oracle uses the public API only. Fix commits and findings: known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
