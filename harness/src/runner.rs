//! Case generation, parallel execution, shrinking, replay files and evidence.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::json;

use crate::util::{Gen, H};

/// A broken property. `kind` says which property (or which aspect) is concerned and identifies the failure for
/// the known-findings file; `msg` describes the case.
#[derive(Debug, Clone)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
impl Fail {
    pub fn new(kind: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { kind: kind.into(), msg: msg.into() }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($kind:expr, $($arg:tt)*) => { return Err($crate::runner::Fail::new($kind, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => { if !$cond { $crate::fail!($kind, $($arg)*) } };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub note: Option<String>,
    /// Only failures of these kinds count (prefix match); others merely abandon the case.
    pub kinds: &'static [&'static str],
    pub verbose: bool,
}
impl Ctx {
    /// Whether this failure breaks the property being checked.
    pub fn counts(&self, f: &Fail) -> bool {
        self.kinds.iter().any(|k| f.kind.starts_with(k))
    }
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn add(&mut self, l: impl Into<String>, n: u64) {
        *self.labels.entry(l.into()).or_default() += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.note.is_none() {
            self.note = Some(f());
        }
    }
}

pub type Run = fn(&mut Gen, &mut Ctx) -> Res;

#[derive(Clone)]
pub struct Facet {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub run: Run,
}
pub fn facet(name: &'static str, quick: usize, run: Run) -> Facet {
    Facet { name, quick: quick * 3, thorough: quick * 40, run }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Which failure kinds break this property; failures of other kinds abandon the case.
    pub kinds: &'static [&'static str],
    pub facets: Vec<Facet>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static TRACE_PANICS: AtomicBool = AtomicBool::new(false);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        if TRACE_PANICS.load(Ordering::Relaxed) {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = text);
    }));
}
pub fn tracing() -> bool {
    TRACE_PANICS.load(Ordering::Relaxed)
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// Runs `f`, turning a panic into its description.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e: Box<dyn Any + Send>| {
        let _ = e;
        last_panic()
    })
}

enum Outcome {
    Pass,
    /// A failure that does not concern this property
    Other(Fail),
    Fail(Fail),
}

fn run_case(check: &Check, facet: &Facet, g: &mut Gen, ctx: &mut Ctx) -> Outcome {
    ctx.kinds = check.kinds;
    let res = match guarded(|| (facet.run)(g, ctx)) {
        Ok(r) => r,
        Err(p) => Err(Fail::new("panic", format!("panic: {p}"))),
    };
    match res {
        Ok(()) => Outcome::Pass,
        Err(f) if check.kinds.iter().any(|k| f.kind.starts_with(k)) => Outcome::Fail(f),
        Err(f) => Outcome::Other(f),
    }
}

fn case_seed(seed: u64, id: &str, facet: &str, k: usize) -> u64 {
    H::new("case").u(seed).b(id.as_bytes()).b(facet.as_bytes()).u(k as u64).f()
}

pub struct Options {
    pub seed: u64,
    pub tier: String,
    pub root: PathBuf,
    pub scale: f64,
    pub only: Option<String>,
}

struct Slot {
    started: Mutex<Option<(Instant, usize, usize)>>,
}

const CASE_LIMIT: Duration = Duration::from_secs(100);

pub fn load_known(root: &PathBuf, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut res = Vec::new();
    for line in text.lines() {
        // finding: property=C01 kind=<kind> <what fails>
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut words = rest.splitn(3, ' ');
            let p = words.next().and_then(|w| w.strip_prefix("property=")).unwrap_or("");
            let k = words.next().and_then(|w| w.strip_prefix("kind=")).unwrap_or("");
            if p == id && !k.is_empty() {
                res.push((k.to_string(), words.next().unwrap_or("").to_string()));
            }
        }
    }
    res
}

/// Runs a check; returns the exit code.
pub fn run_check(check: &Check, opt: &Options) -> i32 {
    let t0 = Instant::now();
    let thorough = opt.tier == "thorough";
    let known = load_known(&opt.root, check.id);
    for (k, w) in &known {
        println!("KNOWN-FINDING: property={} {} ({})", check.id, w, k);
    }
    let cores = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16);
    let budget = Duration::from_secs(if thorough { 3000 } else { 240 });
    let mut evaluations = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut facets_json = serde_json::Map::new();
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut distinct_total = 0usize;
    let mut failure: Option<(usize, Vec<u32>, Fail, Option<u64>)> = None;
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut other_sample: Option<String> = None;
    let facets: Vec<Facet> = check
        .facets
        .iter()
        .filter(|f| opt.only.as_ref().map(|o| o == f.name).unwrap_or(true))
        .cloned()
        .collect();

    for (fi, facet) in facets.iter().enumerate() {
        let tf = Instant::now();
        let total = ((if thorough { facet.thorough } else { facet.quick }) as f64 * opt.scale).ceil() as usize;
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(usize, Vec<u32>, Fail)>> = Mutex::new(None);
        let merged: Mutex<(BTreeMap<String, u64>, HashSet<u64>, Vec<serde_json::Value>, BTreeMap<String, u64>, Option<String>)> =
            Mutex::new(Default::default());
        let slots: Vec<Slot> = (0..cores).map(|_| Slot { started: Mutex::new(None) }).collect();
        let finished = AtomicBool::new(false);

        std::thread::scope(|s| {
            // watchdog: a case that does not come to an end is a violation too
            s.spawn(|| {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    for slot in &slots {
                        let st = *slot.started.lock().unwrap();
                        if let Some((at, k, _)) = st {
                            if at.elapsed() > CASE_LIMIT {
                                let seed = case_seed(opt.seed, check.id, facet.name, k);
                                let f = Fail::new("hang", format!("case {k} of {} does not terminate", facet.name));
                                let path = write_replay(opt, check.id, facet.name, None, Some(seed), &f);
                                write_evidence(
                                    check, opt, t0, evaluations + done.load(Ordering::Relaxed), distinct_total,
                                    &labels, &facets_json, &samples, 1,
                                );
                                println!("{}", f.msg);
                                println!("VIOLATION property={} replay={}", check.id, path.display());
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            let workers: Vec<_> = (0..cores)
                .map(|w| {
                    let (next, done, stop, found, merged, slots) = (&next, &done, &stop, &found, &merged, &slots);
                    let known = &known;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let mut lab: BTreeMap<String, u64> = BTreeMap::new();
                            let mut seen: HashSet<u64> = HashSet::new();
                            let mut samp: Vec<serde_json::Value> = Vec::new();
                            let mut oth: BTreeMap<String, u64> = BTreeMap::new();
                            let mut oths: Option<String> = None;
                            loop {
                                if stop.load(Ordering::Relaxed) || t0.elapsed() > budget {
                                    break;
                                }
                                let k = next.fetch_add(1, Ordering::Relaxed);
                                if k >= total {
                                    break;
                                }
                                *slots[w].started.lock().unwrap() = Some((Instant::now(), k, fi));
                                let mut g = Gen::random(case_seed(opt.seed, check.id, facet.name, k));
                                let mut ctx = Ctx::default();
                                let out = run_case(check, facet, &mut g, &mut ctx);
                                *slots[w].started.lock().unwrap() = None;
                                done.fetch_add(1, Ordering::Relaxed);
                                for (l, c) in ctx.labels {
                                    *lab.entry(l).or_default() += c;
                                }
                                match out {
                                    Outcome::Pass => {
                                        if ctx.nontrivial {
                                            let mut h = H::new("tape");
                                            for t in g.used() {
                                                h = h.u(*t as u64);
                                            }
                                            if seen.insert(h.f()) && samp.len() < 1 && k % 7 == 3 {
                                                samp.push(json!({
                                                    "facet": facet.name, "case": k,
                                                    "description": ctx.note.clone().unwrap_or_default(),
                                                    "tape": g.used().iter().take(400).collect::<Vec<_>>(),
                                                }));
                                            }
                                        }
                                    }
                                    Outcome::Other(f) => {
                                        *oth.entry(f.kind.clone()).or_default() += 1;
                                        if oths.is_none() {
                                            oths = Some(format!("{}: {}", f.kind, f.msg));
                                        }
                                    }
                                    Outcome::Fail(f) => {
                                        if known.iter().any(|(k, _)| *k == f.kind) {
                                            *oth.entry(format!("known:{}", f.kind)).or_default() += 1;
                                            continue;
                                        }
                                        let mut slot = found.lock().unwrap();
                                        if slot.as_ref().map(|(fk, _, _)| *fk > k).unwrap_or(true) {
                                            *slot = Some((k, g.used().to_vec(), f));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            let mut m = merged.lock().unwrap();
                            for (l, c) in lab {
                                *m.0.entry(l).or_default() += c;
                            }
                            m.1.extend(seen);
                            m.2.extend(samp);
                            for (l, c) in oth {
                                *m.3.entry(l).or_default() += c;
                            }
                            if m.4.is_none() {
                                m.4 = oths;
                            }
                        })
                        .unwrap()
                })
                .collect();
            for w in workers {
                let _ = w.join();
            }
            finished.store(true, Ordering::Relaxed);
        });

        let (lab, seen, samp, oth, oths) = merged.into_inner().unwrap();
        evaluations += done.load(Ordering::Relaxed);
        distinct_total += seen.len();
        facets_json.insert(
            facet.name.into(),
            json!({
                "evaluations": done.load(Ordering::Relaxed),
                "distinct_nontrivial": seen.len(),
                "wall_s": tf.elapsed().as_secs_f64(),
                "labels": lab,
            }),
        );
        for (l, c) in lab {
            *labels.entry(l).or_default() += c;
        }
        samples.extend(samp.into_iter().take(2));
        for (l, c) in oth {
            *other.entry(l).or_default() += c;
        }
        if other_sample.is_none() {
            other_sample = oths;
        }
        if let Some((_, tape, f)) = found.into_inner().unwrap() {
            failure = Some((fi, tape, f, None));
            break;
        }
    }
    for (k, n) in &other {
        labels.insert(format!("abandoned ({k})"), *n);
    }
    if let Some(s) = &other_sample {
        println!("note: cases abandoned for reasons outside this property, e.g. {}", truncate(s, 2000));
    }

    let mut code = 0;
    if let Some((fi, tape, f, _)) = failure {
        let facet = &facets[fi];
        let before = tape.len();
        let (tape, f) = shrink(check, facet, tape, f);
        println!("{} [{}] {}", check.id, f.kind, truncate(&f.msg, 6000));
        println!("minimal case: facet {} with {} choices (found with {})", facet.name, tape.len(), before);
        let path = write_replay(opt, check.id, facet.name, Some(&tape), None, &f);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        code = 1;
    }
    write_evidence(
        check, opt, t0, evaluations, distinct_total, &labels, &facets_json, &samples, code as u64,
    );
    if code == 0 {
        println!(
            "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
            check.id,
            evaluations,
            distinct_total,
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

fn write_replay(opt: &Options, id: &str, facet: &str, tape: Option<&[u32]>, seed: Option<u64>, f: &Fail) -> PathBuf {
    let dir = opt.root.join("out");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{facet}.json"));
    let v = json!({
        "property": id, "facet": facet, "tape": tape, "case_seed": seed.map(|s| s.to_string()),
        "kind": f.kind, "what": f.msg,
        "how": format!("/verif/run.sh replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap());
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    check: &Check,
    opt: &Options,
    t0: Instant,
    evaluations: u64,
    distinct: usize,
    labels: &BTreeMap<String, u64>,
    facets: &serde_json::Map<String, serde_json::Value>,
    samples: &[serde_json::Value],
    violations: u64,
) {
    let dir = opt.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = samples.to_vec();
    if samples.is_empty() {
        samples.push(json!({"description": "no non-trivial case passed before the run ended"}));
    }
    let v = json!({
        "property": check.id,
        "tier": if opt.tier == "thorough" { "thorough" } else { "quick" },
        "seed": opt.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": check.rule,
            "samples": samples,
            "facets": facets,
            "labels": labels,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", check.id)), serde_json::to_vec_pretty(&v).unwrap());
}

/// Tape shrinking: remove blocks, zero blocks, lower values; keeps the failure kind.
fn shrink(check: &Check, facet: &Facet, tape: Vec<u32>, f: Fail) -> (Vec<u32>, Fail) {
    let start = Instant::now();
    let limit = Duration::from_secs(40);
    let mut runs = 0;
    let mut best = tape;
    let mut best_f = f;
    let mut try_tape = |cand: Vec<u32>, best: &mut Vec<u32>, best_f: &mut Fail| -> bool {
        if start.elapsed() > limit || runs > 3000 {
            return false;
        }
        runs += 1;
        let (c2, facet2, id, kinds) = (cand.clone(), facet.clone(), check.id, check.kinds);
        // in a thread of its own, since a shrunk case may hang
        let (tx, rx) = std::sync::mpsc::channel();
        let th = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let ck = Check { id, rule: "", assumptions: &[], kinds, facets: vec![] };
            let mut g = Gen::replay(c2);
            let mut ctx = Ctx::default();
            let out = run_case(&ck, &facet2, &mut g, &mut ctx);
            let _ = tx.send((out, g.used().to_vec()));
        });
        if th.is_err() {
            return false;
        }
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok((Outcome::Fail(f), used)) if f.kind == best_f.kind => {
                let mut used = used;
                while used.last() == Some(&0) {
                    used.pop();
                }
                if (used.len(), &used) < (best.len(), &*best) {
                    *best = used;
                    *best_f = f;
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    };
    loop {
        let mut improved = false;
        // truncation
        let mut cut = best.len() / 2;
        while cut > 0 {
            let cand = best[..best.len() - cut.min(best.len())].to_vec();
            if try_tape(cand, &mut best, &mut best_f) {
                improved = true;
            } else {
                cut /= 2;
            }
        }
        let mut size = (best.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if try_tape(cand, &mut best, &mut best_f) {
                    improved = true;
                    continue;
                }
                if best[i..(i + size).min(best.len())].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..i + size] {
                        *x = 0;
                    }
                    if try_tape(cand, &mut best, &mut best_f) {
                        improved = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for c in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && c < best[i] {
                    let mut cand = best.clone();
                    cand[i] = c;
                    if try_tape(cand, &mut best, &mut best_f) {
                        improved = true;
                    }
                }
            }
            i += 1;
        }
        if !improved || start.elapsed() > limit {
            break;
        }
    }
    (best, best_f)
}

pub fn replay(checks: &[Check], path: &str) -> i32 {
    TRACE_PANICS.store(true, Ordering::Relaxed);
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("");
    let name = v["facet"].as_str().unwrap_or("");
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        println!("unknown property {id}");
        return 2;
    };
    let Some(facet) = check.facets.iter().find(|f| f.name == name) else {
        println!("unknown facet {name}");
        return 2;
    };
    let mut g = match v["tape"].as_array() {
        Some(t) => Gen::replay(t.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()),
        None => Gen::random(v["case_seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0)),
    };
    let mut ctx = Ctx { verbose: true, ..Ctx::default() };
    let out = run_case(check, facet, &mut g, &mut ctx);
    if let Some(n) = &ctx.note {
        println!("case: {n}");
    }
    println!("labels: {:?}", ctx.labels);
    match out {
        Outcome::Pass => {
            println!("the property held on this case");
            0
        }
        Outcome::Other(f) => {
            println!("abandoned: [{}] {}", f.kind, f.msg);
            0
        }
        Outcome::Fail(f) => {
            println!("[{}] {}", f.kind, f.msg);
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

#[allow(unused)]
pub fn shared<T>(x: T) -> Arc<Mutex<T>> {
    Arc::new(Mutex::new(x))
}
