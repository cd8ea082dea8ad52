//! Exhaustive case explorer: enumerates every index of every family in worker processes, in order,
//! collects coverage, confirms and reports the first violation, writes the evidence file.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// FNV-1a with a finaliser: stable across runs and builds.
pub struct Fx(u64);
impl Default for Fx {
    fn default() -> Self {
        Fx(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

/// What one worker measured.
#[derive(Default)]
pub struct Cx {
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    /// Cases explored within a smaller bound than stated because they have too many behaviours.
    pub cut: u64,
    pub replaying: bool,
}
impl Cx {
    /// A state of the model / observable state of the system reached by this exploration.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }
    /// An observed outcome (for the vacuity check: how many different answers did the code give).
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.insert(hash_of(t));
    }
    /// Operations executed on the real code.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete execution of the real code compared with the reference model.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
}

pub type Run = Box<dyn Fn(u64, &mut Cx) -> Result<(), String>>;
pub struct Family {
    pub name: &'static str,
    pub total: u64,
    /// cases per worker process
    pub chunk: u64,
    pub run: Run,
    pub show: Box<dyn Fn(u64) -> String>,
}

impl Family {
    pub fn new(
        name: &'static str,
        total: u64,
        chunk: u64,
        show: impl Fn(u64) -> String + 'static,
        run: impl Fn(u64, &mut Cx) -> Result<(), String> + 'static,
    ) -> Family {
        Family { name, total, chunk: chunk.max(1), run: Box::new(run), show: Box::new(show) }
    }
}

/// Mixed-radix decoding of a case index; the first dimension varies slowest.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<usize> {
    let mut out = vec![0; radix.len()];
    for k in (0..radix.len()).rev() {
        out[k] = (i % radix[k]) as usize;
        i /= radix[k];
    }
    out
}
pub fn product(radix: &[u64]) -> u64 {
    radix.iter().product()
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_capture() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or_else(|| "?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

pub fn payload(e: &Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    }
}

/// Runs code under test; a panic becomes Err("panicked at ..: ..").
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let loc = LAST_PANIC.with(|p| p.borrow().clone());
        format!("panicked at {}: {}", loc, payload(&e))
    })
}

fn is_harness_panic() -> bool {
    // Paths of the harness sources are relative ("src/...") or below /verif; those of the code under
    // test are absolute below /repo.
    LAST_PANIC.with(|p| {
        let p = p.borrow();
        p.starts_with("src/") || p.contains("/harness/src/")
    })
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

const EXIT_OK: i32 = 0;
const EXIT_VIOLATION: i32 = 1;
const EXIT_HANG: i32 = 3;
const EXIT_HARNESS: i32 = 4;

#[derive(Clone)]
struct Known {
    family: String,
    case: String,
}

fn known_findings(prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        // known: property=C07 family=<name> case=<shown case>
        if let Some(rest) = line.strip_prefix("known: property=") {
            if let Some((id, rest)) = rest.split_once(" family=") {
                if id == prop {
                    if let Some((fam, case)) = rest.split_once(" case=") {
                        out.push(Known { family: fam.to_string(), case: case.to_string() });
                    }
                }
            }
        }
    }
    out
}

struct WorkerOut {
    cx: Cx,
    known: Vec<String>,
    violation: Option<(u64, String)>,
    /// first case that was left to another worker
    upto: u64,
}

/// Resident memory of this process in bytes. Indexes under test live for ever, so a worker that has
/// explored many of them hands the rest of its cases to a fresh one.
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) * 4096
}
const ENOUGH: u64 = 2 << 30;

fn write_worker(path: &str, o: &WorkerOut) {
    let mut buf = Vec::new();
    for set in [&o.cx.states, &o.cx.outcomes] {
        buf.extend((set.len() as u64).to_le_bytes());
        for s in set {
            buf.extend(s.to_le_bytes());
        }
    }
    let meta = json!({"transitions": o.cx.transitions, "traces": o.cx.traces, "cut": o.cx.cut, "known": o.known, "upto": o.upto,
        "violation": o.violation.as_ref().map(|(i, m)| json!([i, m]))});
    buf.extend(meta.to_string().into_bytes());
    std::fs::write(path, buf).expect("worker output");
}

fn read_worker(path: &str) -> Option<WorkerOut> {
    let buf = std::fs::read(path).ok()?;
    let mut pos = 0;
    let mut sets = Vec::new();
    for _ in 0..2 {
        let n = u64::from_le_bytes(buf.get(pos..pos + 8)?.try_into().ok()?) as usize;
        pos += 8;
        let mut set = HashSet::with_capacity(n);
        for _ in 0..n {
            set.insert(u64::from_le_bytes(buf.get(pos..pos + 8)?.try_into().ok()?));
            pos += 8;
        }
        sets.push(set);
    }
    let v: Value = serde_json::from_slice(&buf[pos..]).ok()?;
    let outcomes = sets.pop()?;
    let states = sets.pop()?;
    Some(WorkerOut {
        upto: v["upto"].as_u64()?,
        cx: Cx { states, outcomes, transitions: v["transitions"].as_u64()?, traces: v["traces"].as_u64()?, cut: v["cut"].as_u64()?, replaying: false },
        known: v["known"].as_array()?.iter().filter_map(|s| s.as_str().map(String::from)).collect(),
        violation: v["violation"].as_array().map(|a| (a[0].as_u64().unwrap_or(0), a[1].as_str().unwrap_or("").to_string())),
    })
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

/// Processor time of this process.
fn cpu_time() -> Duration {
    let mut t = [0i64; 2];
    // SAFETY: writes a timespec, two 64-bit numbers
    unsafe { clock_gettime(2, &mut t) };
    Duration::new(t[0].max(0) as u64, t[1].max(0) as u32)
}

fn worker(prop: &str, fams: Vec<Family>, init: fn(), args: &[String]) -> i32 {
    let fam = &fams[args[0].parse::<usize>().expect("family")];
    let from: u64 = args[1].parse().expect("from");
    let to: u64 = args[2].parse().expect("to");
    let out = args[3].clone();
    let hang_s: u64 = args[4].parse().expect("hang");
    let known = known_findings(prop);
    let lim = [6u64 << 30, 6u64 << 30];
    unsafe {
        setrlimit(9, &lim); // RLIMIT_AS
        let core = [0u64, 0];
        setrlimit(4, &core);
    }
    init();
    install_panic_capture();
    let progress = std::fs::File::create(format!("{out}.at")).expect("progress file");
    std::thread::spawn(move || {
        // Time on a busy machine counts as far as this process got to run, but at least a third of it
        let mut seen = u64::MAX;
        let mut spent = Duration::ZERO;
        let (mut wall, mut cpu) = (Instant::now(), cpu_time());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let (w, c) = (Instant::now(), cpu_time());
            let passed = w - wall;
            spent += c.saturating_sub(cpu).clamp(passed / 3, passed);
            (wall, cpu) = (w, c);
            let cur = CURRENT.load(Ordering::SeqCst);
            if cur != seen {
                seen = cur;
                spent = Duration::ZERO;
            }
            if cur != u64::MAX && spent > Duration::from_secs(hang_s) {
                std::process::exit(EXIT_HANG);
            }
        }
    });
    let mut o = WorkerOut { cx: Cx::default(), known: Vec::new(), violation: None, upto: to };
    o.cx.replaying = std::env::var_os("VERIF_REPLAY").is_some();
    let mut looked = Instant::now();
    for i in from..to {
        if looked.elapsed() > Duration::from_millis(10) {
            looked = Instant::now();
            if i > from && resident() > ENOUGH {
                o.upto = i;
                break;
            }
        }
        progress.write_at(&i.to_le_bytes(), 0).expect("progress");
        CURRENT.store(i, Ordering::SeqCst);
        let res = catch_unwind(AssertUnwindSafe(|| (fam.run)(i, &mut o.cx)));
        let err = match res {
            Ok(Ok(())) => continue,
            Ok(Err(m)) => m,
            Err(e) => {
                let loc = LAST_PANIC.with(|p| p.borrow().clone());
                let m = format!("panicked at {}: {}", loc, payload(&e));
                if is_harness_panic() {
                    std::fs::write(&out, format!("harness panic in case {i}: {m}")).ok();
                    return EXIT_HARNESS;
                }
                m
            }
        };
        let shown = (fam.show)(i);
        if known.iter().any(|k| k.family == fam.name && k.case == shown) {
            o.known.push(format!("{} {}: {}", fam.name, shown, err));
            continue;
        }
        o.violation = Some((i, err));
        break;
    }
    CURRENT.store(u64::MAX, Ordering::SeqCst);
    write_worker(&out, &o);
    if o.violation.is_some() {
        EXIT_VIOLATION
    } else {
        EXIT_OK
    }
}

struct Job {
    fam: usize,
    from: u64,
    to: u64,
    out: String,
    child: Child,
}

fn spawn(prop_bin: &std::path::Path, fam: usize, from: u64, to: u64, out: &str, hang: u64, verbose: bool) -> Child {
    let mut c = Command::new(prop_bin);
    c.arg("--worker").arg(fam.to_string()).arg(from.to_string()).arg(to.to_string()).arg(out).arg(hang.to_string());
    c.stdin(Stdio::null());
    if verbose {
        c.env("VERIF_REPLAY", "1").stdout(Stdio::inherit()).stderr(Stdio::inherit());
    } else {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    c.spawn().expect("spawn worker")
}

enum Fate {
    Done(Box<WorkerOut>),
    Crashed(u64, String),
    Harness(String),
}

fn fate(job: &Job, status: std::process::ExitStatus) -> Fate {
    match status.code() {
        Some(EXIT_OK | EXIT_VIOLATION) => match read_worker(&job.out) {
            Some(o) => Fate::Done(Box::new(o)),
            None => Fate::Harness("worker output unreadable".into()),
        },
        Some(EXIT_HARNESS) => Fate::Harness(std::fs::read_to_string(&job.out).unwrap_or_default()),
        code => {
            let at = std::fs::read(format!("{}.at", job.out)).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
            match at {
                None => Fate::Harness(format!("worker died before its first case ({status})")),
                Some(i) => Fate::Crashed(
                    i,
                    if code == Some(EXIT_HANG) {
                        "did not terminate within the time allowed for one case".into()
                    } else if let Some(sig) = status.signal() {
                        format!("process killed by signal {sig} (abort, stack or memory exhaustion)")
                    } else {
                        format!("process ended unexpectedly ({status})")
                    },
                ),
            }
        }
    }
}

pub struct Spec {
    pub prop: &'static str,
    pub level: &'static str,
    pub init: fn(),
    pub families: fn(Tier) -> Vec<Family>,
    pub assumptions: &'static [&'static str],
    pub bounds: fn(Tier) -> Vec<String>,
}

pub fn run(spec: &Spec) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let fams = (spec.families)(tier);
    if args.get(1).map(String::as_str) == Some("--worker") {
        let code = worker(spec.prop, fams, spec.init, &args[2..]);
        std::process::exit(code);
    }
    if args.get(1).map(String::as_str) == Some("--list") {
        for f in &fams {
            println!("{:<28} {:>12}  e.g. {}", f.name, f.total, if f.total > 0 { (f.show)(f.total / 2) } else { String::new() });
        }
        std::process::exit(0);
    }
    let bin = std::env::current_exe().expect("exe");
    let scratch = verif_dir().join("target").join("scratch").join(format!("{}-{}", spec.prop, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch dir");
    let hang = tier.pick(80, 300);
    let code = if args.get(1).map(String::as_str) == Some("--replay") {
        replay(spec, &fams, &bin, &scratch, &args[2], hang)
    } else {
        parent(spec, &fams, &bin, &scratch, tier, seed, hang)
    };
    std::fs::remove_dir_all(&scratch).ok();
    std::process::exit(code);
}

fn replay(spec: &Spec, fams: &[Family], bin: &std::path::Path, scratch: &std::path::Path, file: &str, hang: u64) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let name = v["family"].as_str().unwrap_or("");
    let case = v["index"].as_u64().unwrap_or(0);
    let Some(fi) = fams.iter().position(|f| f.name == name) else {
        eprintln!("no family {name} in this tier (set VERIF_TIER={})", v["tier"]);
        return 2;
    };
    println!("replaying {} {} #{case}: {}", spec.prop, name, (fams[fi].show)(case));
    let out = scratch.join("replay").display().to_string();
    let mut child = spawn(bin, fi, case, case + 1, &out, hang, true);
    let status = child.wait().expect("wait");
    let job = Job { fam: fi, from: case, to: case + 1, out, child };
    match fate(&job, status) {
        Fate::Done(o) => match o.violation {
            Some((_, m)) => {
                println!("violates {}: {m}", spec.prop);
                1
            }
            None => {
                println!("holds");
                0
            }
        },
        Fate::Crashed(_, m) => {
            println!("violates {}: {m}", spec.prop);
            1
        }
        Fate::Harness(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

fn parent(spec: &Spec, fams: &[Family], bin: &std::path::Path, scratch: &std::path::Path, tier: Tier, seed: u64, hang: u64) -> i32 {
    let t0 = Instant::now();
    let cap = Duration::from_secs(std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(700, 6 * 3600)));
    let parallel = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut queue: Vec<(usize, u64, u64)> = Vec::new();
    for (fi, f) in fams.iter().enumerate() {
        let mut from = 0;
        while from < f.total {
            let to = (from + f.chunk).min(f.total);
            queue.push((fi, from, to));
            from = to;
        }
    }
    queue.reverse();
    let planned = queue.len();
    let mut jobs: Vec<Job> = Vec::new();
    let mut total = Cx::default();
    let mut known = Vec::new();
    let mut done_cases: BTreeMap<usize, u64> = BTreeMap::new();
    // (family, case, message)
    let mut bad: Option<(usize, u64, String)> = None;
    let mut harness_error: Option<String> = None;
    let mut capped = false;
    let mut n = 0;
    let trace = std::env::var_os("VERIF_TRACE").is_some();
    loop {
        if t0.elapsed() > cap {
            capped = true;
            queue.clear();
            for j in &mut jobs {
                j.child.kill().ok();
                j.child.wait().ok();
            }
            jobs.clear();
        }
        while jobs.len() < parallel && bad.is_none() && harness_error.is_none() {
            let Some((fam, from, to)) = queue.pop() else { break };
            let out = scratch.join(format!("w{n}")).display().to_string();
            n += 1;
            let child = spawn(bin, fam, from, to, &out, hang, false);
            jobs.push(Job { fam, from, to, out, child });
        }
        if jobs.is_empty() {
            break;
        }
        let mut progressed = false;
        let mut k = 0;
        while k < jobs.len() {
            match jobs[k].child.try_wait().expect("try_wait") {
                None => k += 1,
                Some(status) => {
                    progressed = true;
                    let job = jobs.swap_remove(k);
                    if trace {
                        eprintln!("[{:>7.2}] {} {}..{} {status}", t0.elapsed().as_secs_f64(), fams[job.fam].name, job.from, job.to);
                    }
                    let mut note = |fam: usize, i: u64, m: String| {
                        if bad.as_ref().map_or(true, |(bf, bi, _)| (fam, i) < (*bf, *bi)) {
                            bad = Some((fam, i, m));
                        }
                    };
                    match fate(&job, status) {
                        Fate::Done(o) => {
                            total.states.extend(&o.cx.states);
                            total.outcomes.extend(&o.cx.outcomes);
                            total.transitions += o.cx.transitions;
                            total.traces += o.cx.traces;
                            total.cut += o.cx.cut;
                            known.extend(o.known);
                            *done_cases.entry(job.fam).or_default() += o.upto - job.from;
                            if o.upto < job.to && o.violation.is_none() {
                                queue.push((job.fam, o.upto, job.to));
                            }
                            if let Some((i, m)) = o.violation {
                                note(job.fam, i, m);
                            }
                        }
                        Fate::Crashed(i, m) => note(job.fam, i, m),
                        Fate::Harness(m) => harness_error = Some(m),
                    }
                    std::fs::remove_file(&job.out).ok();
                    std::fs::remove_file(format!("{}.at", job.out)).ok();
                }
            }
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", spec.prop, k);
    }
    if bad.is_none() {
        if let Some(m) = harness_error {
            eprintln!("{}: harness error: {m}", spec.prop);
            return 2;
        }
    }
    let mut verdict = 0;
    if let Some((fi, i, m)) = &bad {
        // confirm in a fresh process
        let out = scratch.join("confirm").display().to_string();
        let mut child = spawn(bin, *fi, *i, *i + 1, &out, hang, false);
        let status = child.wait().expect("wait");
        let job = Job { fam: *fi, from: *i, to: *i + 1, out, child };
        let again = match fate(&job, status) {
            Fate::Done(o) => o.violation.map(|v| v.1),
            Fate::Crashed(_, m) => Some(m),
            Fate::Harness(_) => None,
        };
        let f = &fams[*fi];
        let shown = (f.show)(*i);
        // The order dependent case: it failed in its chunk but not alone. Confirm by running the prefix of the chunk.
        let again = again.or_else(|| {
            let from = (*i / f.chunk) * f.chunk;
            let out = scratch.join("confirm2").display().to_string();
            let mut child = spawn(bin, *fi, from, *i + 1, &out, hang, false);
            let status = child.wait().expect("wait");
            let job = Job { fam: *fi, from, to: *i + 1, out, child };
            match fate(&job, status) {
                Fate::Done(o) => o.violation.map(|v| format!("{} (after the preceding cases of its chunk)", v.1)),
                Fate::Crashed(_, m) => Some(m),
                Fate::Harness(_) => None,
            }
        });
        let Some(msg) = again else {
            eprintln!("{}: case {} #{i} ({shown}) failed once ({m}) and passed when repeated: nondeterminism not under control", spec.prop, f.name);
            return 2;
        };
        let dir = verif_dir().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}.json", spec.prop));
        let art = json!({"property": spec.prop, "tier": format!("{tier:?}").to_lowercase(), "family": f.name, "index": i, "case": shown, "what": msg,
            "replay": format!("VERIF_TIER={} ./check.sh {} --replay {}", format!("{tier:?}").to_lowercase(), spec.prop, path.display())});
        std::fs::write(&path, format!("{:#}\n", art)).expect("replay file");
        println!("{}: family {} case #{i}: {shown}", spec.prop, f.name);
        println!("  {msg}");
        println!("VIOLATION property={} replay={}", spec.prop, path.display());
        verdict = 1;
    }
    let mut samples = Vec::new();
    for f in fams.iter() {
        for i in [f.total / 3, f.total * 4 / 5] {
            if f.total > 0 && samples.len() < 24 {
                let mut s = (f.show)(i);
                if s.len() > 400 {
                    let mut cut = 400;
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    s.truncate(cut);
                    s.push('…');
                }
                let s = format!("{} #{}: {}", f.name, i, s);
                if !samples.contains(&s) {
                    samples.push(s);
                }
            }
        }
    }
    let complete = !capped && bad.is_none() && total.cut == 0;
    let coverage = json!({
        "states": total.states.len(),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "distinct_outcomes": total.outcomes.len(),
        "samples": samples,
        "exhaustive": complete,
        "capped": capped,
        "cases_cut_to_a_smaller_bound": total.cut,
        "bounds": (spec.bounds)(tier),
        "families": fams.iter().enumerate().map(|(k, f)| json!({"name": f.name, "cases": f.total, "completed": done_cases.get(&k).copied().unwrap_or(0)})).collect::<Vec<_>>(),
        "worker_processes": planned,
    });
    let ev = json!({
        "property": spec.prop, "tier": format!("{tier:?}").to_lowercase(), "seed": seed, "level": spec.level,
        "coverage": coverage, "assumptions": spec.assumptions, "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(bad.is_some()),
    });
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).ok();
    std::fs::write(evdir.join(format!("{}.json", spec.prop)), format!("{:#}\n", ev)).expect("evidence");
    println!(
        "{} {:?}: {} cases in {} families, states={} transitions={} executions={} outcomes={} complete={} {:.1}s",
        spec.prop,
        tier,
        done_cases.values().sum::<u64>(),
        fams.len(),
        total.states.len(),
        total.transitions,
        total.traces,
        total.outcomes.len(),
        complete,
        t0.elapsed().as_secs_f64()
    );
    std::io::stdout().flush().ok();
    verdict
}
