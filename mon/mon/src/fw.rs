//! Check framework: case scheduling, verdicts, evidence, replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vmodel::meter::{self, Meter};
use vmodel::prng::mix;

#[derive(Clone, Debug)]
pub struct Viol {
    /// Stable identification of what fails (used to match known findings).
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
impl From<String> for Viol {
    fn from(s: String) -> Viol {
        Viol { sig: "-".into(), msg: s }
    }
}
pub fn viol(sig: &str, msg: String) -> Viol {
    Viol { sig: sig.into(), msg }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::fw::Viol::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err($crate::fw::Viol::from(format!($($a)*))) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    pub idx: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    /// Those of them that are maxima.
    pub maxima: HashSet<&'static str>,
    pub samples: Vec<String>,
    pub known: Vec<(String, String)>,
    /// Known findings listed for this property: signature and description.
    pub listed: Vec<(String, String)>,
    pub verbose: bool,
}
impl Ctx {
    pub fn new(tier: Tier) -> Ctx {
        Ctx { tier, idx: 0, evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(), maxima: HashSet::new(), samples: vec![], known: vec![], listed: vec![], verbose: false }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        self.maxima.insert(k);
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluation; `sig` identifies what was distinct about it; nontrivial decides if it counts.
    pub fn eval(&mut self, sig: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 2_000_000 {
            self.distinct.insert(sig);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// A failure that may be a known finding: noted if it is listed, a violation otherwise.
    pub fn known_or(&mut self, sig: &str, msg: String) -> Res {
        match self.listed.iter().find(|k| k.0 == sig) {
            Some(k) => {
                if !self.known.contains(k) {
                    self.known.push(k.clone());
                }
                Ok(())
            }
            None => Err(viol(sig, msg)),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// Number of cases: quick, thorough.
    pub cases: (u64, u64),
    /// Soft limits in seconds: quick, thorough.
    pub secs: (u64, u64),
    pub run: fn(&mut Ctx, u64) -> Res,
    /// Counters that must be non-zero for the run to count as an observation.
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Work limit per case, in basic-block steps, and live heap bytes.
    pub limits: (u64, u64),
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CUR: RefCell<(u64, u64, usize)> = const { RefCell::new((0, 0, 0)) };
}
static STOP: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<Option<(String, String, u64, String)>> = Mutex::new(None); // id, tier, seed, outdir
static SLOTS: Mutex<Option<File>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(b) = i.payload().downcast_ref::<vmodel::disk::IoBudgetExceeded>() {
            format!("I/O operation budget exceeded after {} operations", b.0)
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some((msg, loc));
            }
        });
    }));
}
pub struct Panicked {
    pub msg: String,
    pub loc: String,
    pub io_budget: bool,
    pub skip: bool,
}
impl Panicked {
    /// The panic started in harness code, not in the library or what the library called.
    pub fn harness(&self) -> bool {
        !self.io_budget && (self.loc.contains("mon/src/") || self.loc.contains("vmodel/src/") || self.loc.starts_with("src/") )
    }
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Panicked { msg, loc, io_budget: e.is::<vmodel::disk::IoBudgetExceeded>(), skip: e.is::<vmodel::vol::VolumeFull>() })
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(dir: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
        for l in s.lines() {
            // known: property=<id> sig=<sig> <description>
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let id = it.next().unwrap_or("").to_string();
                let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                v.push((id, sig, it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

fn on_limit(kind: &'static str, v: u64) {
    // Runs on the thread whose work exceeded its limit; does not return.
    let (seed, idx, _slot) = CUR.with(|c| *c.borrow());
    meter::TL.with(|t| {
        t.live_limit.set(i64::MAX);
        t.step_limit.set(u64::MAX)
    });
    let note = meter::TL.with(|t| t.note.get());
    end_with(seed, idx, &format!("work limit exceeded: {kind} reached {v} in case {idx} (case seed {seed:#x}) - the operation does not finish within its budget {note}"))
}

/// Reports an operation that does not finish as a violation and ends the process.
fn end_with(seed: u64, idx: u64, msg: &str) -> ! {
    let cur = CURRENT.lock().ok().and_then(|g| g.clone());
    if let Some((id, tier, vseed, dir)) = cur {
        let rp = write_replay(&dir, &id, &tier, vseed, seed, idx, msg);
        println!("VIOLATION property={id} replay={rp}");
        println!("  {msg}");
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":1,\"rule\":\"run ended at the first violation\",\"samples\":[{}]}},\"wall_s\":0.0,\"violations\":1}}",
            jstr(&id), jstr(&tier), vseed, idx + 1, jstr(msg)
        );
        let _ = std::fs::write(format!("{dir}/evidence/{id}.json"), ev);
    } else {
        println!("case violates the property: {msg}");
    }
    std::process::exit(1)
}

/// What each worker thread runs: its thread id, the case seed and the case index + 1 (0: nothing).
static RUNNING: [(AtomicU64, AtomicU64, AtomicU64); 16] = [const { (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)) }; 16];

/// Processor time in seconds that one case may use. A loop that the compiler has reduced to a jump
/// to itself has no block left that counts steps; cases take well under a tenth of this.
const CASE_CPU_SECONDS: u64 = 150;

fn running(slot: usize, seed: u64, idx1: u64) {
    let r = &RUNNING[slot];
    if r.0.load(Ordering::SeqCst) == 0 {
        let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok())));
        r.0.store(tid.unwrap_or(0), Ordering::SeqCst);
    }
    r.1.store(seed, Ordering::SeqCst);
    r.2.store(idx1, Ordering::SeqCst);
}

fn watch() {
    let _ = std::thread::Builder::new().spawn(|| {
        let mut base = [(0u64, 0u64); 16];
        loop {
            std::thread::sleep(Duration::from_millis(1000));
            for (r, b) in RUNNING.iter().zip(base.iter_mut()) {
                let (tid, seed, idx1) = (r.0.load(Ordering::SeqCst), r.1.load(Ordering::SeqCst), r.2.load(Ordering::SeqCst));
                if tid == 0 || idx1 == 0 {
                    *b = (0, 0);
                    continue;
                }
                let Ok(st) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { continue };
                let f: Vec<u64> = st.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
                if f.len() < 13 {
                    continue;
                }
                let ticks = f[11] + f[12];
                if b.0 != idx1 {
                    *b = (idx1, ticks);
                } else if ticks - b.1 > CASE_CPU_SECONDS * 100 && r.2.load(Ordering::SeqCst) == idx1 {
                    end_with(seed, idx1 - 1, &format!("case {} (case seed {seed:#x}) has used {CASE_CPU_SECONDS} s of processor time - an operation does not finish", idx1 - 1));
                }
            }
        }
    });
}

pub fn write_replay(dir: &str, id: &str, tier: &str, vseed: u64, case_seed: u64, idx: u64, msg: &str) -> String {
    let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
    let p = format!("{dir}/evidence/replay/{id}-{case_seed:016x}.json");
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"case_seed\":{},\"case_index\":{},\"how\":{},\"message\":{}}}\n",
        jstr(id),
        jstr(tier),
        vseed,
        jstr(&format!("{case_seed:#x}")),
        idx,
        jstr(&format!("bash /verif/check.sh replay {id} {case_seed:#x} {tier}")),
        jstr(msg)
    );
    let _ = std::fs::write(&p, s);
    p
}

pub fn case_seed(vseed: u64, id: &str, idx: u64) -> u64 {
    let mut h = mix(vseed ^ 0xabcdef);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h.wrapping_add(idx.wrapping_mul(0x9e37_79b9_7f4a_7c15)))
}

enum CaseOut {
    Ok,
    Viol(Viol),
    Harness(String),
}
fn one_case(c: &Check, ctx: &mut Ctx, seed: u64) -> CaseOut {
    let m = Meter::start(c.limits.0, c.limits.1);
    let r = guard(|| (c.run)(ctx, seed));
    let u = m.stop();
    ctx.max("max_steps_per_case", u.steps);
    ctx.max("max_heap_per_case", u.peak);
    match r {
        Ok(Ok(())) => CaseOut::Ok,
        Ok(Err(v)) => CaseOut::Viol(v),
        Err(p) if p.skip => {
            ctx.count("skipped_volume_full", 1);
            CaseOut::Ok
        }
        Err(p) if p.harness() => CaseOut::Harness(format!("harness panic at {}: {}", p.loc, p.msg)),
        Err(p) => CaseOut::Viol(Viol { sig: format!("panic@{}", p.loc), msg: format!("library panicked at {}: {}", p.loc, p.msg) }),
    }
}

pub fn replay(c: &Check, seed: u64, tier: Tier) -> i32 {
    install_panic_hook();
    meter::set_hook(on_limit);
    let mut ctx = Ctx::new(tier);
    ctx.verbose = true;
    ctx.listed = known_findings(".").into_iter().filter(|k| k.0 == c.id).map(|k| (k.1, k.2)).collect();
    watch();
    running(0, seed, 1);
    match one_case(c, &mut ctx, seed) {
        CaseOut::Ok => {
            println!("case held; counters {:?}", ctx.counters);
            0
        }
        CaseOut::Viol(v) => {
            println!("case violates {}: [{}] {}", c.id, v.sig, v.msg);
            1
        }
        CaseOut::Harness(m) => {
            println!("{m}");
            3
        }
    }
}

pub fn run_child(c: &'static Check, tier: Tier, vseed: u64, dir: &str) -> i32 {
    install_panic_hook();
    meter::set_hook(on_limit);
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    *CURRENT.lock().unwrap() = Some((c.id.to_string(), tname.into(), vseed, dir.to_string()));
    let t0 = Instant::now();
    let total = if tier == Tier::Quick { c.cases.0 } else { c.cases.1 };
    let soft = Duration::from_secs(if tier == Tier::Quick { c.secs.0 } else { c.secs.1 });
    let slots = File::create(format!("{dir}/evidence/.slots-{}", c.id)).ok();
    *SLOTS.lock().unwrap() = slots;
    let next = AtomicU64::new(0);
    let known = known_findings(dir);
    let results: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let viols: Mutex<Vec<(u64, u64, Viol)>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16);
    watch();
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, results, viols, harness, known) = (&next, &results, &viols, &harness, &known);
            let f = SLOTS.lock().unwrap().as_ref().and_then(|f| f.try_clone().ok());
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx::new(tier);
                    ctx.listed = known.iter().filter(|k| k.0 == c.id).map(|k| (k.1.clone(), k.2.clone())).collect();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= total || STOP.load(Ordering::SeqCst) || t0.elapsed() > soft {
                            break;
                        }
                        ctx.idx = idx;
                        let seed = case_seed(vseed, c.id, idx);
                        CUR.with(|x| *x.borrow_mut() = (seed, idx, t));
                        if let Some(f) = &f {
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&seed.to_le_bytes());
                            b[8..].copy_from_slice(&(idx + 1).to_le_bytes());
                            let _ = f.write_at(&b, t as u64 * 16);
                        }
                        running(t, seed, idx + 1);
                        match one_case(c, &mut ctx, seed) {
                            CaseOut::Ok => {}
                            CaseOut::Viol(v) => {
                                if let Some(k) = known.iter().find(|k| k.0 == c.id && k.1 == v.sig) {
                                    ctx.known.push((k.1.clone(), k.2.clone()));
                                } else {
                                    let mut g = viols.lock().unwrap();
                                    g.push((idx, seed, v));
                                    if g.len() >= 8 {
                                        STOP.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                            CaseOut::Harness(m) => {
                                let mut g = harness.lock().unwrap();
                                g.push(format!("case {idx} seed {seed:#x}: {m}"));
                                if g.len() >= 8 {
                                    STOP.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                    if let Some(f) = &f {
                        let _ = f.write_at(&[0u8; 16], t as u64 * 16);
                    }
                    running(t, 0, 0);
                    results.lock().unwrap().push(ctx);
                })
                .expect("spawn");
        }
    });
    let mut all = Ctx::new(tier);
    for r in results.into_inner().unwrap() {
        all.evals += r.evals;
        all.distinct.extend(r.distinct);
        for (k, v) in r.counters {
            if r.maxima.contains(k) {
                all.max(k, v);
            } else {
                all.count(k, v);
            }
        }
        all.samples.extend(r.samples);
        all.known.extend(r.known);
    }
    all.samples.sort();
    all.samples.truncate(6);
    let mut viols = viols.into_inner().unwrap();
    viols.sort_by_key(|v| v.0);
    let harness = harness.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = String::new();
    cov.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},", all.evals, all.distinct.len(), jstr(c.rule)));
    cov.push_str("\"observed\":{");
    cov.push_str(&all.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    cov.push_str("},\"samples\":[");
    cov.push_str(&all.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    cov.push(']');
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(c.id),
        tname,
        vseed,
        jstr(c.level),
        cov,
        c.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        wall,
        viols.len()
    );
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", c.id), ev) {
        println!("cannot write evidence: {e}");
        return 3;
    }
    let _ = std::fs::remove_file(format!("{dir}/evidence/.slots-{}", c.id));
    let mut seen = HashSet::new();
    for (sig, d) in &all.known {
        if seen.insert(sig.clone()) {
            println!("KNOWN-FINDING: property={} {} [{}]", c.id, d, sig);
        }
    }
    for (idx, seed, v) in viols.iter().take(8) {
        let rp = write_replay(dir, c.id, tname, vseed, *seed, *idx, &format!("[{}] {}", v.sig, v.msg));
        println!("VIOLATION property={} replay={}", c.id, rp);
        println!("  case {idx} seed {seed:#x} [{}] {}", v.sig, v.msg.chars().take(1500).collect::<String>());
    }
    for h in harness.iter().take(8) {
        println!("HARNESS-ERROR {h}");
    }
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {:.1}s, observed {:?}",
        c.id, tname, all.evals, all.distinct.len(), wall, all.counters
    );
    if !viols.is_empty() {
        return 1;
    }
    if !harness.is_empty() {
        return 3;
    }
    for n in c.need {
        if all.counters.get(n).copied().unwrap_or(0) == 0 {
            println!("INCONCLUSIVE: monitor observed no '{n}' events");
            return 4;
        }
    }
    0
}
