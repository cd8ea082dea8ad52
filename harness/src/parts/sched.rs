//! Schedule explorer: real OS threads running the real code one at a time. Control changes hands
//! only at scheduling points (locks and atomics of the crate under test, arena locks, hash-table
//! creations, memory allocations, operation boundaries), so an execution is determined by the choices
//! made at those points. With the feature `shim` the crate under test is compiled against
//! `stubs/std`, which reports its locks and atomics; without it they are not seen.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

use vharness::sys;

pub const LOCKS: u8 = 1;
pub const ARENAS: u8 = 2;
pub const TABLES: u8 = 4;
pub const ALLOCS: u8 = 8;

struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ME.get() != NOBODY && !QUIET.get() {
            point(Kind::Plain(ALLOCS));
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ME.get() != NOBODY && !QUIET.get() {
            point(Kind::Plain(ALLOCS));
        }
        System.realloc(p, l, n)
    }
}

const NOBODY: usize = usize::MAX;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Th {
    Absent,
    Ready,
    /// a lock, shared or not
    Wants(usize, bool),
    /// until somebody notifies this condition variable
    Waits(usize),
    Running,
    /// blocked on something the scheduler does not see
    Foreign,
    Done,
}

#[derive(Clone, Copy)]
enum Kind {
    Acquire(u8, usize, bool),
    Taken(usize, bool),
    Release(u8, usize),
    Unlocked(usize),
    Plain(u8),
    Yield,
    Wait(usize),
    Notify(usize, bool),
    Boundary,
}

/// Operations on shared memory after which a thread is taken to wait for others.
const SPIN: u64 = 300;

/// How the next thread is chosen.
#[derive(Clone, Debug)]
pub enum Plan {
    /// Follow these choices at the points where more than one thread could run, then do not preempt.
    Prefix(Vec<usize>),
    /// Run a thread for k of its points, then the next entry; afterwards do not preempt.
    Segments(Vec<(usize, u64)>),
}

#[derive(Clone, Debug)]
pub struct Decision {
    pub enabled: Vec<usize>,
    pub chosen: usize,
    /// choosing another thread here is a preemption
    pub can_continue: bool,
}

struct St {
    mask: u8,
    th: Vec<Th>,
    tids: Vec<i32>,
    /// (lock, thread, shared)
    holders: Vec<(usize, usize, bool)>,
    steps_in_a_row: u64,
    yields: u64,
    gave_way: bool,
    cur: Option<usize>,
    last: Option<usize>,
    plan: Plan,
    segment: usize,
    segment_base: u64,
    points: Vec<u64>,
    decisions: Vec<Decision>,
    progress: u64,
    foreign: bool,
    diverged: bool,
    stuck: Option<String>,
    finished: bool,
}

static G: Mutex<Option<St>> = Mutex::new(None);
static CV: [Condvar; 4] = [const { Condvar::new() }; 4];
static DONE: Condvar = Condvar::new();

fn lock() -> MutexGuard<'static, Option<St>> {
    G.lock().unwrap_or_else(|e| e.into_inner())
}

impl St {
    /// A reader does not overtake a waiting writer.
    fn free(&self, l: usize, shared: bool) -> bool {
        if shared {
            !self.holders.iter().any(|h| h.0 == l && !h.2) && !self.th.contains(&Th::Wants(l, false))
        } else {
            !self.holders.iter().any(|h| h.0 == l)
        }
    }
    /// The thread that ran last comes first if it can continue, and not at all if it gave way to others.
    fn enabled(&self) -> Vec<usize> {
        let mut out: Vec<usize> = (0..self.th.len())
            .filter(|i| match self.th[*i] {
                Th::Ready => true,
                Th::Wants(l, shared) => self.free(l, shared),
                _ => false,
            })
            .collect();
        if let Some(at) = self.last.and_then(|l| out.iter().position(|e| *e == l)) {
            let l = out.remove(at);
            if !self.gave_way || out.is_empty() {
                out.insert(0, l);
            }
        }
        out
    }
    fn choose(&mut self) {
        self.cur = None;
        let enabled = self.enabled();
        if enabled.is_empty() {
            if self.th.iter().all(|t| *t == Th::Done) {
                self.finished = true;
            } else if !self.th.iter().any(|t| matches!(t, Th::Foreign | Th::Running | Th::Absent)) {
                self.stuck = Some(format!("deadlock: threads {:?}, locks held by {:?}", self.th.iter().map(|t| if matches!(t, Th::Wants(..) | Th::Waits(_)) { "waits" } else { "done" }).collect::<Vec<_>>(), self.holders.iter().map(|h| h.1).collect::<Vec<_>>()));
            }
            DONE.notify_all();
            return;
        }
        let stay = self.last.filter(|l| !self.gave_way && enabled.contains(l));
        self.gave_way = false;
        let default = enabled[0];
        let pick = match &self.plan {
            Plan::Prefix(p) => {
                if enabled.len() == 1 {
                    enabled[0]
                } else {
                    let want = p.get(self.decisions.len()).copied().unwrap_or(default);
                    let chosen = if enabled.contains(&want) {
                        want
                    } else {
                        self.diverged = true;
                        default
                    };
                    self.decisions.push(Decision { enabled: enabled.clone(), chosen, can_continue: stay.is_some() });
                    chosen
                }
            }
            Plan::Segments(segs) => {
                let mut pick = None;
                while let Some((t, k)) = segs.get(self.segment) {
                    if enabled.contains(t) && self.points[*t] - self.segment_base < *k {
                        pick = Some(*t);
                        break;
                    }
                    self.segment += 1;
                    if let Some((t, _)) = segs.get(self.segment) {
                        self.segment_base = self.points[*t];
                    } else {
                        // the rest of the execution starts with a thread other than the last one planned
                        pick = enabled.iter().copied().find(|e| e != t);
                    }
                }
                pick.unwrap_or(default)
            }
        };
        self.last = Some(pick);
        self.cur = Some(pick);
        CV[pick].notify_one();
    }
}

fn point(kind: Kind) {
    let me = ME.get();
    if me == NOBODY || INSIDE.get() {
        return;
    }
    INSIDE.set(true);
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        let stop = match kind {
            Kind::Release(class, l) => {
                if let Some(at) = s.holders.iter().position(|h| h.0 == l && h.1 == me) {
                    s.holders.remove(at);
                }
                s.mask & class != 0
            }
            Kind::Unlocked(l) => {
                s.holders.retain(|h| h.0 != l || h.1 != me);
                false
            }
            Kind::Acquire(class, l, shared) => {
                if s.mask & class == 0 && s.free(l, shared) {
                    s.holders.push((l, me, shared));
                    false
                } else {
                    true
                }
            }
            Kind::Taken(l, shared) => {
                s.holders.push((l, me, shared));
                false
            }
            Kind::Plain(LOCKS) if !QUIET.get() => {
                s.steps_in_a_row += 1;
                if s.steps_in_a_row > SPIN {
                    s.gave_way = true;
                }
                s.mask & LOCKS != 0 || s.gave_way
            }
            Kind::Plain(class) => s.mask & class != 0 && !QUIET.get(),
            Kind::Yield => {
                s.gave_way = true;
                true
            }
            Kind::Wait(_) | Kind::Boundary => true,
            Kind::Notify(c, all) => {
                // which of several is woken is not chosen: the first
                for t in s.th.iter_mut().filter(|t| **t == Th::Waits(c)).take(if all { usize::MAX } else { 1 }) {
                    *t = Th::Ready;
                }
                true
            }
        };
        if s.gave_way {
            s.yields += 1;
        }
        if !matches!(kind, Kind::Plain(LOCKS)) || s.gave_way {
            s.steps_in_a_row = 0;
        }
        if stop {
            s.th[me] = match kind {
                Kind::Acquire(_, l, shared) => Th::Wants(l, shared),
                Kind::Wait(c) => Th::Waits(c),
                _ => Th::Ready,
            };
            s.points[me] += 1;
            wait_turn(g, me, kind);
        }
    }
    INSIDE.set(false);
}

fn wait_turn(mut g: MutexGuard<'static, Option<St>>, me: usize, kind: Kind) {
    if let Some(s) = g.as_mut() {
        // giving way without end is no progress
        s.progress += u64::from(s.yields < 100_000 || !s.gave_way);
        if s.cur == Some(me) || s.cur.is_none() {
            s.choose();
        }
    }
    loop {
        match g.as_mut() {
            Some(s) if s.cur == Some(me) => {
                s.th[me] = Th::Running;
                if let Kind::Acquire(_, l, shared) = kind {
                    s.holders.push((l, me, shared));
                }
                return;
            }
            _ => g = CV[me].wait(g).unwrap_or_else(|e| e.into_inner()),
        }
    }
}

/// The boundary between two operations of a thread.
pub fn boundary() {
    point(Kind::Boundary);
}

/// Code of the harness itself: allocations are no points.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let before = QUIET.replace(true);
    let out = f();
    QUIET.set(before);
    out
}

#[cfg(feature = "shim")]
fn on_event(e: shimstd::Event) {
    use shimstd::Event;
    point(match e {
        Event::Acquire(l, shared) => Kind::Acquire(LOCKS, l, shared),
        Event::Taken(l, shared) => Kind::Taken(l, shared),
        Event::Release(l) => Kind::Release(LOCKS, l),
        Event::Unlocked(l) => Kind::Unlocked(l),
        Event::Step => Kind::Plain(LOCKS),
        Event::Yield => Kind::Yield,
        Event::Wait(c) => Kind::Wait(c),
        Event::Notify(c, all) => Kind::Notify(c, all),
    });
}
fn on_arena(acquire: bool, a: usize) {
    point(if acquire { Kind::Acquire(ARENAS, a, false) } else { Kind::Release(ARENAS, a) });
}
fn on_table() {
    point(Kind::Plain(TABLES));
}

pub fn init() {
    sys::init();
    #[cfg(feature = "shim")]
    shimstd::HOOK.set(on_event).ok();
    colosseum::sync::HOOK.set(on_arena).ok();
    sys::ON_TABLE.set(on_table).ok();
}

pub struct Execution<T> {
    pub results: Vec<T>,
    pub decisions: Vec<Decision>,
    /// points each thread passed
    pub points: Vec<u64>,
    pub foreign: bool,
    pub diverged: bool,
    /// a thread waited for others in a loop
    pub waited: bool,
}

pub type Body<T> = Arc<dyn Fn(usize) -> T + Send + Sync>;

const STALL: Duration = Duration::from_millis(30);
const GIVE_UP: Duration = Duration::from_secs(45);

extern "C" {
    fn gettid() -> i32;
}
/// Is the thread asleep (as opposed to running or waiting for a processor)?
fn asleep(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    matches!(s.rsplit(") ").next().and_then(|r| r.chars().next()), Some('S' | 'D'))
}

/// One execution of `n` threads under `plan`. Err: deadlock or no progress.
pub fn execute<T: Send + 'static>(n: usize, mask: u8, plan: Plan, body: &Body<T>) -> Result<Execution<T>, String> {
    *lock() = Some(St {
        mask,
        th: vec![Th::Absent; n],
        tids: vec![0; n],
        holders: Vec::new(),
        steps_in_a_row: 0,
        yields: 0,
        gave_way: false,
        cur: None,
        last: None,
        plan,
        segment: 0,
        segment_base: 0,
        points: vec![0; n],
        decisions: Vec::new(),
        progress: 0,
        foreign: false,
        diverged: false,
        stuck: None,
        finished: false,
    });
    let mut joins = Vec::new();
    for i in 0..n {
        let body = body.clone();
        joins.push(std::thread::spawn(move || {
            INSIDE.set(true);
            ME.set(i);
            {
                let mut g = lock();
                if let Some(s) = g.as_mut() {
                    s.th[i] = Th::Ready;
                    s.tids[i] = unsafe { gettid() };
                    if s.th.iter().all(|t| *t == Th::Ready) {
                        s.choose();
                    }
                }
                loop {
                    match g.as_mut() {
                        Some(s) if s.cur == Some(i) => {
                            s.th[i] = Th::Running;
                            break;
                        }
                        _ => g = CV[i].wait(g).unwrap_or_else(|e| e.into_inner()),
                    }
                }
            }
            INSIDE.set(false);
            let out = body(i);
            INSIDE.set(true);
            ME.set(NOBODY);
            {
                let mut g = lock();
                if let Some(s) = g.as_mut() {
                    s.th[i] = Th::Done;
                    s.progress += 1;
                    if s.cur == Some(i) || s.cur.is_none() {
                        s.choose();
                    }
                }
            }
            out
        }));
    }
    let mut g = lock();
    let mut seen = 0;
    let mut sleeps = 0;
    let mut since = Instant::now();
    loop {
        {
            let s = g.as_mut().expect("state");
            if s.finished {
                break;
            }
            if let Some(m) = &s.stuck {
                return Err(m.clone());
            }
            if s.progress != seen {
                seen = s.progress;
                since = Instant::now();
                sleeps = 0;
            } else if since.elapsed() > GIVE_UP {
                return Err(format!("no progress: threads {:?} wait for each other or do not terminate", s.th));
            } else if since.elapsed() > STALL {
                if let Some(c) = s.cur {
                    if s.th[c] != Th::Running {
                        // chosen, but has not woken up yet
                        CV[c].notify_one();
                        sleeps = 0;
                    } else if asleep(s.tids[c]) {
                        sleeps += 1;
                    } else {
                        sleeps = 0;
                    }
                    if sleeps >= 3 {
                        // The running thread is blocked on something that is not instrumented: let others run.
                        sleeps = 0;
                        s.th[c] = Th::Foreign;
                        s.foreign = true;
                        s.choose();
                    }
                }
            }
        }
        g = DONE.wait_timeout(g, Duration::from_millis(10)).unwrap_or_else(|e| e.into_inner()).0;
    }
    let s = g.take().expect("state");
    drop(g);
    let mut results = Vec::new();
    for j in joins {
        results.push(j.join().map_err(|e| format!("a thread panicked: {}", vharness::engine::payload(&e)))?);
    }
    Ok(Execution { results, decisions: s.decisions, points: s.points, foreign: s.foreign, diverged: s.diverged, waited: s.yields > 0 })
}

/// All schedules with at most `bound` preemptions, depth first. `reset` runs before and `check`
/// after each. If there are more than `most`, or threads wait for each other in loops, the bound
/// becomes 2 (then 1, then 0). Returns whether all schedules within the given bound were explored.
pub fn explore<T: Send + 'static>(
    n: usize,
    mask: u8,
    mut bound: usize,
    most: u64,
    body: &Body<T>,
    mut reset: impl FnMut() -> Result<(), String>,
    mut check: impl FnMut(Execution<T>) -> Result<(), String>,
) -> Result<bool, String> {
    let mut prefix: Vec<usize> = Vec::new();
    let (mut count, mut strange, mut odd) = (0, 0, 0);
    let mut cut = false;
    loop {
        reset()?;
        let say = |p: &[usize]| format!("[choices {p:?}]");
        let e = execute(n, mask, Plan::Prefix(prefix.clone()), body).map_err(|m| format!("{m} {}", say(&prefix)))?;
        count += 1;
        let d = e.decisions.clone();
        // Every turn of a waiting loop could come at any point of the others.
        if let Some(b) = smaller_bound(bound, e.waited, count > most) {
            (bound, cut, count) = (b, true, 0);
            check(e).map_err(|m| format!("{m} {}", say(&prefix)))?;
            prefix.clear();
            continue;
        }
        // Locks that are not instrumented: every execution is a real one, but their number is cut.
        strange += u64::from(e.foreign);
        if strange > 200 {
            return Ok(false);
        }
        // The code remembers something from one execution to the next: every execution is a real
        // one and is judged, but what others would have shown is not known.
        if e.diverged && !e.foreign {
            odd += 1;
            cut = true;
            if odd > 300 {
                return check(e).map(|()| false).map_err(|m| format!("{m} {}", say(&prefix)));
            }
        }
        let chosen: Vec<usize> = d.iter().map(|d| d.chosen).collect();
        check(e).map_err(|m| format!("{m} {}", say(&chosen)))?;
        match next_prefix(&d, bound) {
            Some(p) => prefix = p,
            None => return Ok(!cut),
        }
    }
}

pub fn smaller_bound(bound: usize, waited: bool, too_many: bool) -> Option<usize> {
    if bound > 2 && (waited || too_many) {
        Some(2)
    } else if bound > 0 && too_many {
        Some(bound - 1)
    } else {
        None
    }
}

/// The choices of the next schedule: the deepest decision with an untried alternative within the bound.
pub fn next_prefix(d: &[Decision], bound: usize) -> Option<Vec<usize>> {
    for k in (0..d.len()).rev() {
        let before: usize = d[..k].iter().map(cost).sum();
        let order = &d[k].enabled;
        let at = order.iter().position(|t| *t == d[k].chosen).unwrap_or(0);
        for t in &order[at + 1..] {
            if before + cost(&Decision { chosen: *t, ..d[k].clone() }) <= bound {
                let mut p: Vec<usize> = d[..k].iter().map(|d| d.chosen).collect();
                p.push(*t);
                return Some(p);
            }
        }
    }
    None
}

fn cost(d: &Decision) -> usize {
    usize::from(d.can_continue && d.chosen != d.enabled[0])
}

/// All executions that preempt one thread after each of its points (and, with `two`, the other one
/// after each of its own) and otherwise run threads to completion.
pub fn explore_segments<T: Send + 'static>(
    mask: u8,
    two: bool,
    // (i, n): only the i-th of n parts
    shard: (u64, u64),
    body: &Body<T>,
    mut reset: impl FnMut() -> Result<(), String>,
    mut check: impl FnMut(Execution<T>) -> Result<(), String>,
) -> Result<u64, String> {
    let mut count = 0;
    let mut go = |segs: Vec<(usize, u64)>| -> Result<Vec<u64>, String> {
        reset()?;
        count += 1;
        let say = format!("[schedule {segs:?}]");
        let e = execute(2, mask, Plan::Segments(segs), body).map_err(|m| format!("{m} {say}"))?;
        let p = e.points.clone();
        check(e).map_err(|m| format!("{m} {say}"))?;
        Ok(p)
    };
    for first in 0..2usize {
        let other = 1 - first;
        let mut k = if two { 0 } else { shard.0 };
        loop {
            let p = go(vec![(first, k)])?;
            if two && k % shard.1 == shard.0 {
                let mut j = 1;
                loop {
                    let q = go(vec![(first, k), (other, j)])?;
                    if j >= q[other] {
                        break;
                    }
                    j += 1;
                }
            }
            if k > p[first] {
                break;
            }
            k += if two { 1 } else { shard.1 };
        }
    }
    Ok(count)
}
