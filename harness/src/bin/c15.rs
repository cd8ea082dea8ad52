//! C15: loading switches the whole index at once. Real threads on the real exported functions under
//! a controlled scheduler; every schedule within the bound; linearizability of every execution.
#[path = "../parts/sched.rs"]
mod sched;
#[path = "../parts/served.rs"]
mod served;

use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

use sched::*;
use served::*;
use vharness::engine::*;
use vharness::sys;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    Load(usize),
    Ask(Ask),
}

static WORLDS: OnceLock<Vec<World>> = OnceLock::new();
fn worlds() -> Result<&'static [World], String> {
    if WORLDS.get().is_none() {
        WORLDS.set(vec![world("A")?, world("B")?, world("C")?]).ok();
    }
    Ok(WORLDS.get().map_or(&[], |v| v))
}

static CLOCK: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
struct Done {
    op: Op,
    start: u64,
    end: u64,
    answer: String,
}

fn perform(op: Op, h: &(sys::CategoryHandler, sys::TagHandler), w: &[World]) -> String {
    match op {
        Op::Load(k) => match sys::load(&w[k].image) {
            Ok(true) => "loaded".into(),
            Ok(false) => "refused".into(),
            Err(e) => e,
        },
        Op::Ask(a) => ask(a, &h.0, &h.1),
    }
}

fn body(programs: Vec<Vec<Op>>, w: &'static [World]) -> Body<Result<Vec<Done>, String>> {
    Arc::new(move |i| {
        let h = quietly(idle_handlers)?;
        let mut out = quietly(|| Vec::with_capacity(4));
        for (k, op) in programs[i].iter().enumerate() {
            if k > 0 {
                boundary();
            }
            let start = CLOCK.fetch_add(1, Ordering::SeqCst);
            let answer = perform(*op, &h, w);
            let end = CLOCK.fetch_add(1, Ordering::SeqCst);
            quietly(|| out.push(Done { op: *op, start, end, answer }));
        }
        Ok(out)
    })
}

/// Is there an order of the operations, consistent with real time, in which every answer is that of
/// the image loaded last before it? Depth-first over all orders.
fn linearizable(all: &[Done], done: &mut Vec<bool>, current: Option<usize>, left: usize, answer: &dyn Fn(Option<usize>, Ask) -> String) -> bool {
    if left == 0 {
        return true;
    }
    for i in 0..all.len() {
        if done[i] || (0..all.len()).any(|j| !done[j] && j != i && all[j].end < all[i].start) {
            continue;
        }
        let next = match all[i].op {
            Op::Load(k) if all[i].answer == "loaded" => Some(k),
            Op::Load(_) => continue,
            Op::Ask(a) if all[i].answer == answer(current, a) => current,
            Op::Ask(_) => continue,
        };
        done[i] = true;
        let ok = linearizable(all, done, next, left - 1, answer);
        done[i] = false;
        if ok {
            return true;
        }
    }
    false
}

fn check_execution(e: Execution<Result<Vec<Done>, String>>, initial: Option<usize>, w: &'static [World], table: &Table, cx: &mut Cx) -> Result<(), String> {
    let mut all = Vec::new();
    for r in e.results {
        all.extend(r?);
    }
    // what is served afterwards, with nothing else running
    let h = idle_handlers()?;
    for a in ALL_ASKS {
        let start = CLOCK.fetch_add(1, Ordering::SeqCst);
        let answer = ask(a, &h.0, &h.1);
        let end = CLOCK.fetch_add(1, Ordering::SeqCst);
        all.push(Done { op: Op::Ask(a), start, end, answer });
    }
    all.sort_by_key(|d| d.start);
    cx.step(e.points.iter().sum::<u64>() + all.len() as u64);
    cx.trace();
    let mut key: Vec<(Op, &str)> = all.iter().map(|d| (d.op, d.answer.as_str())).collect();
    cx.outcome(&key);
    key.truncate(6);
    cx.state(&(key, e.decisions.iter().map(|d| d.chosen).collect::<Vec<_>>(), initial));
    let n = all.len();
    let _ = w;
    if linearizable(&all, &mut vec![false; n], initial, n, &|c, a| table.get(c, a)) {
        return Ok(());
    }
    let told: Vec<String> = all.iter().map(|d| format!("{:?} ({}..{}) answered {}", d.op, d.start, d.end, d.answer)).collect();
    Err(format!("no order of the operations explains the answers: {}", told.join("; ")))
}

/// The expected answers, computed once.
struct Table(Vec<Vec<String>>);
impl Table {
    fn new(w: &[World]) -> Table {
        Table((0..=w.len()).map(|k| ALL_ASKS.iter().map(|a| expected(if k == 0 { None } else { Some(&w[k - 1]) }, *a)).collect()).collect())
    }
    fn get(&self, c: Option<usize>, a: Ask) -> String {
        let k = ALL_ASKS.iter().position(|x| *x == a).unwrap_or(0);
        self.0[c.map_or(0, |c| c + 1)][k].clone()
    }
}

enum Mode {
    Bounded(usize),
    Segments,
    /// Two preemptions, in so many parts (every execution leaves its indexes behind).
    Twice(u64),
}

fn scenario(programs: &[Vec<Op>], mode: &Mode, part: u64, most: u64, cx: &mut Cx) -> Result<(), String> {
    let w = worlds()?;
    let table = Table::new(w);
    let reset = || sys::must_load(&w[0].image);
    let b = body(programs.to_vec(), w);
    match mode {
        Mode::Bounded(k) => {
            let all = explore(programs.len(), LOCKS, *k, most, &b, reset, |e| check_execution(e, Some(0), w, &table, cx))?;
            cx.cut += u64::from(!all);
        }
        Mode::Segments | Mode::Twice(_) => {
            let (two, shard) = match mode {
                Mode::Twice(n) => (true, (part, *n)),
                _ => (false, (0, 1)),
            };
            let warm = sys::must_load(&w[0].image);
            warm?;
            explore_segments(LOCKS | ARENAS | TABLES | ALLOCS, two, shard, &b, reset, |e| check_execution(e, Some(0), w, &table, cx))?;
        }
    };
    Ok(())
}

/// The same from a process that has not loaded anything: each schedule in a child of its own.
fn unloaded(programs: &[Vec<Op>], mut bound: usize, most: u64, cx: &mut Cx) -> Result<(), String> {
    let w = worlds()?;
    let table = Table::new(w);
    idle_handlers()?;
    let b = body(programs.to_vec(), w);
    let mut prefix: Vec<usize> = Vec::new();
    let (mut count, mut cut) = (0, false);
    loop {
        let answer = sys::forked(|| {
            let e = execute(programs.len(), LOCKS, Plan::Prefix(prefix.clone()), &b)?;
            let d: Vec<serde_json::Value> = e.decisions.iter().map(|d| serde_json::json!([d.enabled, d.chosen, d.can_continue])).collect();
            let waited = e.waited;
            let mut local = Cx::default();
            check_execution(e, None, w, &table, &mut local)?;
            let hashes: Vec<u64> = local.outcomes.into_iter().collect();
            Ok(serde_json::json!({"d": d, "waited": waited, "points": local.transitions, "outcome": hashes}).to_string())
        })
        .map_err(|m| format!("{m} [choices {prefix:?}]"))?;
        let v: serde_json::Value = serde_json::from_str(&answer).map_err(|e| e.to_string())?;
        let d: Vec<Decision> = v["d"].as_array().into_iter().flatten().map(|x| Decision {
            enabled: x[0].as_array().into_iter().flatten().filter_map(|t| t.as_u64()).map(|t| t as usize).collect(),
            chosen: x[1].as_u64().unwrap_or(0) as usize,
            can_continue: x[2].as_bool().unwrap_or(false),
        }).collect();
        cx.step(v["points"].as_u64().unwrap_or(0));
        cx.trace();
        for o in v["outcome"].as_array().into_iter().flatten() {
            cx.outcome(&o.as_u64());
        }
        cx.state(&(format!("{programs:?}"), d.iter().map(|d| d.chosen).collect::<Vec<_>>()));
        count += 1;
        if let Some(b) = smaller_bound(bound, v["waited"].as_bool() == Some(true), count > most) {
            (bound, cut, count) = (b, true, 0);
            prefix.clear();
            continue;
        }
        match next_prefix(&d, bound) {
            Some(p) => prefix = p,
            None => break,
        }
    }
    cx.cut += u64::from(cut);
    Ok(())
}

fn menu() -> Vec<Op> {
    let mut m = vec![Op::Load(1), Op::Load(2)];
    m.extend(ASKS.iter().map(|a| Op::Ask(*a)));
    m
}

fn useful(p: &[Vec<Op>]) -> bool {
    p.iter().flatten().any(|o| matches!(o, Op::Load(_)))
}

fn programs(shape: &[usize], menu: &[Op]) -> Vec<Vec<Vec<Op>>> {
    let n: usize = shape.iter().sum();
    let radix = vec![menu.len() as u64; n];
    let mut out = Vec::new();
    for i in 0..product(&radix) {
        let d = digits(i, &radix);
        let mut at = 0;
        let mut p: Vec<Vec<Op>> = Vec::new();
        for s in shape {
            p.push(d[at..at + s].iter().map(|k| menu[*k]).collect());
            at += s;
        }
        // threads with the same number of operations are interchangeable: keep one representative
        let key = |q: &Vec<Op>| q.iter().map(|o| menu.iter().position(|m| m == o)).collect::<Vec<_>>();
        let sorted = p.windows(2).all(|w| w[0].len() != w[1].len() || key(&w[0]) <= key(&w[1]));
        if sorted && useful(&p) {
            out.push(p);
        }
    }
    out
}

fn show(p: &[Vec<Op>]) -> String {
    p.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" || ")
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let mut add = |name: &'static str, ps: Vec<Vec<Vec<Op>>>, chunk: u64, from_nothing: bool, mode: Mode| {
        let ps = Rc::new(ps);
        let p2 = ps.clone();
        let parts = if let Mode::Twice(n) = mode { n } else { 1 };
        let told = move |i: u64| if parts > 1 { format!(", part {} of {parts}", i % parts + 1) } else { String::new() };
        f.push(Family::new(name, ps.len() as u64 * parts, chunk, move |i| show(&p2[(i / parts) as usize]) + &told(i), move |i, cx| {
            sys::set_seed(i + 1);
            let p = &ps[(i / parts) as usize];
            match (&mode, from_nothing) {
                (Mode::Bounded(b), true) => unloaded(p, *b, tier.pick(4000, 40_000), cx),
                _ => scenario(p, &mode, i % parts, tier.pick(8000, 40_000), cx),
            }
        }));
    };
    let m: &[Op] = &menu();
    let small: &[Op] = &[Op::Load(1), Op::Load(2), Op::Ask(Ask::Search), Op::Ask(Ask::Sorted(0)), Op::Ask(Ask::Tags)];
    add("two-threads", programs(&[1, 1], m), 3, false, Mode::Bounded(99));
    add("two-threads-two-ops", programs(&[2, 2], tier.pick(small, m)), 20, false, Mode::Bounded(tier.pick(2, 4)));
    add("two-threads-three-ops", programs(&[3, 1], tier.pick(small, m)), 50, false, Mode::Bounded(tier.pick(1, 3)));
    add("three-threads", programs(&[1, 1, 1], m), 10, false, Mode::Bounded(tier.pick(2, 6)));
    add("three-threads-five-ops", programs(&[2, 2, 1], tier.pick(&small[1..4], small)), 20, false, Mode::Bounded(tier.pick(1, 2)));
    add("nothing-loaded-two", programs(&[1, 1], m), 3, true, Mode::Bounded(tier.pick(4, 99)));
    add("nothing-loaded-three", programs(&[1, 1, 1], small), 3, true, Mode::Bounded(tier.pick(2, 3)));
    add("every-allocation", programs(&[1, 1], m), 2, false, Mode::Segments);
    if tier == Tier::Thorough {
        add("every-allocation-twice", programs(&[1, 1], small), 1, false, Mode::Twice(16));
    }
    f
}

fn main() {
    run(&Spec {
        prop: "C15",
        level: "model_checking",
        init: || {
            sched::init();
            // the lazily created statics
            sys::load(&[]).ok();
            if let Ok((c, t)) = idle_handlers() {
                for a in ALL_ASKS {
                    ask(a, &c, &t);
                }
            }
        },
        families,
        assumptions: &[
            "threads switch only at operations on locks and atomics, arena allocations, hash-table creations and memory allocations; code between two such points has no other communication",
            "sequentially consistent memory: the crate shares data only under locks",
            "handlers used by concurrent searches have nothing selected",
        ],
        bounds: |t| vec![
            "two threads, one operation each (9 operations): every schedule of the operations on locks and atomics".into(),
            t.pick("2+2 of 5 operations: up to 2 preemptions; 3+1 of 5: up to 1; three threads of 9: up to 2; 2+2+1 of 3 operations: up to 1", "2+2 operations: up to 4 preemptions; 3+1: up to 3; three threads: up to 6; 2+2+1 of 5 operations: up to 2").into(),
            t.pick("from a process without an index: two threads up to 4 preemptions, three up to 2", "from a process without an index: two threads every schedule, three up to 3 preemptions").into(),
            t.pick("a preemption at every memory or arena allocation of either thread", "one and two preemptions at every memory or arena allocation of either thread").into(),
        ],
    })
}
