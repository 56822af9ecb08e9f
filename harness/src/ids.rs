//! Session identifiers (C17).
use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet},
    hash::{Hash, Hasher},
    sync::Arc,
};

use manul::{
    digest::Digest,
    session::{Session, SessionId, WireFormat},
};
use sha3::{Keccak256, Sha3_224, Sha3_256, Sha3_384, Sha3_512};

use crate::{
    byz::gen_twist,
    chain::*,
    ensure, fail,
    net::Plan,
    params::{Bin, Fixed, Json, Signer, SP},
    proto::*,
    runner::{facet, Check, Ctx, Fail},
    steps::*,
    trips::rewire,
    util::{rng_from, Gen},
    wire::hex,
};

type CaseRes = Result<(), Fail>;

macro_rules! with_digest {
    ($idx:expr, $D:ident => $body:expr) => {
        match $idx {
            0 => { type $D = Sha3_256; $body }
            1 => { type $D = Sha3_512; $body }
            2 => { type $D = Sha3_224; $body }
            3 => { type $D = Keccak256; $body }
            _ => { type $D = Sha3_384; $body }
        }
    };
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C17",
        rule: "a case is a set of seeds (unrelated, near-identical, empty, long, related by splitting and padding) from \
               which identifiers are derived with one of five hash functions, or a run of a generated protocol \
               (plain or chained) whose entry points and whose verification of evidence record what they were given; \
               non-trivial if there were at least two different seeds, or messages were exchanged",
        assumptions: &["the hash function has no collisions among the generated inputs"],
        kinds: &["C17", "panic", "hang"],
        facets: vec![
            facet("derivation", 40000, run_derivation),
            facet("entry-points", 40000, |g, c| run_given(g, c, &[0], Knobs { nmax: 4, stages: 3, ..KNOBS })),
            facet("entry-points-chained", 20000, |g, c| run_given(g, c, &[1, 2, 3, 4], Knobs { nmax: 4, stages: 2, ..KNOBS })),
        ],
    }]
}

fn gen_seeds(g: &mut Gen) -> Vec<Vec<u8>> {
    let len = match g.below(6) {
        0 => 0,
        1 => g.range(1, 4),
        2 => g.range(60, 140),
        3 => g.range(190, 300),
        _ => g.range(4, 40),
    };
    let base: Vec<u8> = if g.chance(1, 4) { vec![g.below(256) as u8; len] } else { (0..len).map(|_| g.below(256) as u8).collect() };
    let mut seeds = vec![base];
    for _ in 0..g.range(1, 8) {
        let mut s = g.pick(&seeds).clone();
        match g.below(9) {
            0 => s.push(0),
            1 => s.push(g.below(256) as u8),
            2 => s.insert(0, 0),
            3 if !s.is_empty() => drop(s.pop()),
            4 if !s.is_empty() => {
                let i = g.below(s.len());
                s[i] ^= 1 << g.below(8);
            }
            5 => s.reverse(),
            6 => {
                let t = s.clone();
                s.extend(t);
            }
            7 => {
                // what the seed could be taken for
                let (n, b) = (s.len() as u64, *g.pick(&[&b"SessionId"[..], b"", b"SignedMessagePartDigest"]));
                s = b.iter().copied().chain(if g.chance(1, 2) { n.to_be_bytes().to_vec() } else { vec![] }).chain(s).collect();
            }
            _ => s = g.bytes(300),
        }
        seeds.push(s);
    }
    seeds
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn run_derivation(g: &mut Gen, ctx: &mut Ctx) -> CaseRes {
    let seeds = gen_seeds(g);
    let d = g.below(5);
    let threads = g.chance(1, 16);
    with_digest!(d, D => {
        let derive = |s: &[u8]| SessionId::from_seed::<SP<Bin, D>>(s);
        let ids: Vec<SessionId> = seeds.iter().map(|s| derive(s)).collect();
        // in another order, on another thread, with the other session parameters a node may use
        let other: Vec<SessionId> = if threads {
            let seeds = seeds.clone();
            std::thread::spawn(move || seeds.iter().rev().map(|s| SessionId::from_seed::<SP<Json, D>>(&s.clone())).collect::<Vec<_>>()).join().unwrap().into_iter().rev().collect()
        } else {
            let mut v: Vec<_> = seeds.iter().rev().map(|s| SessionId::from_seed::<SP<Json, D>>(&s.clone())).collect();
            v.reverse();
            v
        };
        let mut seen: BTreeMap<Vec<u8>, &[u8]> = BTreeMap::new();
        let mut index: BTreeMap<SessionId, &[u8]> = BTreeMap::new();
        for (i, id) in ids.iter().enumerate() {
            let b = id.as_ref().to_vec();
            ensure!(b.len() >= 16, "C17:collision", "an identifier of {} bytes", b.len());
            ensure!(*id == other[i] && b == other[i].as_ref(), "C17:unstable", "seed {} gives {} and {}", hex(&seeds[i]), hex(&b), hex(other[i].as_ref()));
            if let Some(s) = seen.insert(b.clone(), &seeds[i]) {
                ensure!(s == seeds[i], "C17:collision", "seeds {} and {} both give {}", hex(s), hex(&seeds[i]), hex(&b));
            }
            if let Some(s) = index.insert(id.clone(), &seeds[i]) {
                ensure!(s == seeds[i], "C17:equal", "the identifiers for {} and {} are the same key", hex(s), hex(&seeds[i]));
            }
            let back = rewire(id, g.below(7), "session ID").map_err(|f| Fail::new("C17:serialize", f.msg))?;
            ensure!(back == *id && back.as_ref() == id.as_ref(), "C17:serialize", "{} became {}", hex(&b), hex(back.as_ref()));
        }
        // the identifiers serve as seeds again; those of other hash functions are there as well
        let mut all: Vec<SessionId> = ids.clone();
        all.push(derive(ids[0].as_ref()));
        all.push(SessionId::from_seed::<SP<Bin, Sha3_512>>(&seeds[0]));
        all.push(SessionId::from_seed::<SP<Bin, Sha3_224>>(&seeds[0]));
        all.push(SessionId::random::<SP<Bin, D>>(&mut rng_from(g.u64())));
        for a in &all {
            for b in &all {
                let same = a.as_ref() == b.as_ref();
                let (x, y) = (hex(a.as_ref()), hex(b.as_ref()));
                ensure!((a == b) == same, "C17:equal", "{x} and {y}: {}", a == b);
                ensure!(a.cmp(b).is_eq() == same && a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)), "C17:order", "{x} and {y}: {:?}", a.cmp(b));
                ensure!(!same || h(a) == h(b), "C17:equal", "{x} has two hash values");
                for c in &all {
                    ensure!(!(a <= b && b <= c) || a <= c, "C17:order", "{x}, {y}, {} are not ordered", hex(c.as_ref()));
                }
            }
        }
        // random ones take all of their bytes from the generator
        let (s1, s2) = (g.u64(), g.u64());
        let mut rngs = [rng_from(s1), rng_from(s1), rng_from(s2 ^ u64::from(s1 == s2))];
        let drawn: Vec<Vec<SessionId>> = rngs.iter_mut().map(|r| (0..8).map(|_| SessionId::random::<SP<Bin, D>>(r)).collect()).collect();
        ensure!(drawn[0] == drawn[1], "C17:random", "the same generator gives {:?} and {:?}", drawn[0], drawn[1]);
        let various: Vec<&SessionId> = drawn[0].iter().chain(&drawn[2]).collect();
        let unlike: BTreeSet<&[u8]> = various.iter().map(|x| x.as_ref()).collect();
        ensure!(unlike.len() == various.len(), "C17:random", "random identifiers repeat: {various:?}");
        for i in 0..various[0].as_ref().len() {
            let bytes: BTreeSet<Option<&u8>> = various.iter().map(|x| x.as_ref().get(i)).collect();
            ensure!(bytes.len() > 1, "C17:random", "byte {i} of random identifiers is always the same: {various:?}");
        }
        let mut distinct = seeds.clone();
        distinct.sort();
        distinct.dedup();
        if distinct.len() > 1 {
            ctx.nontrivial();
        }
        ctx.add("identifiers", ids.len() as u64);
        ctx.note(|| format!("hash {d}, {} seeds of {:?} bytes", seeds.len(), seeds.iter().map(|s| s.len()).collect::<Vec<_>>()));
        Ok(())
    })
}

fn run_given(g: &mut Gen, ctx: &mut Ctx, trees: &[usize], k: Knobs) -> CaseRes {
    let tree = *g.pick(trees);
    let d = g.below(5);
    let json = g.chance(1, 2);
    let cfgs = gen_cfgs(g, leaves(tree), k);
    match (tree, d, json) {
        (0, 0, _) => given::<T1, Tree_, Sha3_256>(g, ctx, cfgs),
        (0, 1, _) => given::<T1, Bin, Sha3_512>(g, ctx, cfgs),
        (0, 2, _) => given::<T1, Fixed, Sha3_224>(g, ctx, cfgs),
        (0, 3, _) => given::<T1, Json, Keccak256>(g, ctx, cfgs),
        (0, _, true) => given::<T1, Json, Sha3_384>(g, ctx, cfgs),
        (0, _, false) => given::<T1, Bin, Sha3_384>(g, ctx, cfgs),
        (1, _, true) => given::<T2, Json, Keccak256>(g, ctx, cfgs),
        (1, _, false) => given::<T2, Bin, Sha3_512>(g, ctx, cfgs),
        (2, ..) => given::<T3L, Tree_, Sha3_224>(g, ctx, cfgs),
        (3, ..) => given::<T3R, Fixed, Sha3_256>(g, ctx, cfgs),
        _ => given::<T4, Json, Sha3_384>(g, ctx, cfgs),
    }
}
type Tree_ = crate::params::Tree;

fn given<T: crate::chain::Tree, F: WireFormat, D: Digest + 'static>(g: &mut Gen, ctx: &mut Ctx, cfgs: Vec<Arc<Cfg>>) -> CaseRes {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let n = plan.n();
    let mut twists: Vec<Vec<Vec<Twist>>> = vec![vec![vec![]; cfgs.len()]; n];
    if g.chance(3, 4) {
        let (i, l) = (g.below(n), g.below(cfgs.len()));
        twists[i][l].push(gen_twist(g, &cfgs[l]));
    }
    let seeds = gen_seeds(g);
    let seed = g.pick(&seeds).clone();
    let sid = SessionId::from_seed::<SP<F, D>>(&seed);
    let len = g.below(40);
    let tape: Vec<u32> = (0..len).map(|_| g.below(1 << 16) as u32).collect();
    let setup = Setup { plan: &plan, sid: &seed, seed: 3, tape: &tape, misuse: 0, misuse_tape: &[], kind: "C17:misuse", wire: false };
    let log = Log::default();
    let sim = simulate_with::<T, F, D>(&setup, |i| T::build(&cfgs, &log, &twists[i]))?;
    let check = |log: &Log, sid: &SessionId, what: &str| -> Result<usize, Fail> {
        let mut k = 0;
        for e in log.get() {
            if let Ev::Entry { p, me, sr, .. } = e {
                k += 1;
                ensure!(sr == sid.as_ref(), "C17:entry-point", "the entry point of part {p} of v{me} is given {} instead of {}{what}; {}", hex(&sr), hex(sid.as_ref()), plan.describe());
            }
        }
        Ok(k)
    };
    let entered = check(&log, &sid, "")?;
    ensure!(entered >= n, "C17:entry-point", "{entered} entry points for {n} parties; {}", plan.describe());
    // also for an identifier which is not derived from a seed
    let random = SessionId::random::<SP<F, D>>(&mut rng_from(g.u64()));
    let log2 = Log::default();
    let _ = Session::<T::Protocol, SP<F, D>>::new(&mut rng_from(1), random.clone(), Signer::new(plan.vid(0)), T::build(&cfgs, &log2, &[]));
    check(&log2, &random, " (random identifier)")?;
    // The generated errors are verified by recomputing what was to be sent, which depends on the shared randomness.
    let shared = T::shared(&cfgs);
    let mut evs = 0;
    for rep in sim.reports.iter().flatten() {
        for (v, e) in &rep.provable_errors {
            evs += 1;
            if let Err(err) = e.verify(&shared) {
                fail!("C17:evidence", "evidence against {v:?} ({}) does not verify: {err:?}; session ID from {}, {}, deviations {twists:?}", e.description(), hex(&seed), plan.describe());
            }
        }
    }
    ctx.add("entry points", entered as u64);
    ctx.add("evidence", evs);
    if sim.obs.iter().any(|o| matches!(o, Obs::Made { .. })) {
        ctx.nontrivial();
    }
    ctx.note(|| format!("seed of {} bytes, {}, {evs} pieces of evidence", seed.len(), plan.describe()));
    Ok(())
}
