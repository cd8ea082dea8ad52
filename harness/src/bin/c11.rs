use std::collections::{HashSet, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use indexer_lib as ix;
use ix::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, TagHandler};
use vharness::engine::*;
use vharness::model::P;
use vharness::{shapes, sys};
use wasm_bindgen::JsValue;

/// Three items and three observers; the third observer throws.
const ITEMS: usize = 3;
const OBSERVERS: usize = 3;

fn catalogue() -> Vec<P> {
    vec![
        P::new("a").desc("abcde").opt("Size", &["S", "M"]).opt("Color", &["S"]).tag("t").tag("u").tag("v"),
        P::new("b").desc("fghij").opt("Color", &["S"]).tag("u"),
    ]
}

type Log = Arc<Mutex<Vec<(usize, Vec<String>)>>>;

fn show(v: &JsValue) -> String {
    format!("{v:?}")
}

fn observer(id: usize, log: &Log) -> js_sys::Function {
    let log = log.clone();
    let calls = std::sync::atomic::AtomicUsize::new(0);
    let f = JsValue::native_function(Box::new(move |_this: &JsValue, args: &[JsValue]| {
        if let Ok(mut l) = log.lock() {
            l.push((id, args.iter().map(show).collect()));
        }
        // anything can be thrown and returned; a different kind at every call
        let value = match (calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + id) % 8 {
            0 => JsValue::UNDEFINED,
            1 => JsValue::from("a value nobody looks at"),
            2 => JsValue::NULL,
            3 => JsValue::from(false),
            4 => JsValue::from(js_sys::Object::new()),
            5 => JsValue::from(true),
            6 => JsValue::from(0.0),
            _ => JsValue::from(""),
        };
        if id == OBSERVERS - 1 {
            Err(value)
        } else {
            Ok(value)
        }
    }));
    js_sys::Function::from(f)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Toggle(usize),
    General(usize),
    Add(usize, usize),
    Remove(usize, usize),
}
fn alphabet() -> Vec<Op> {
    let mut v: Vec<Op> = (0..ITEMS).map(Op::Toggle).collect();
    v.extend((0..OBSERVERS).map(Op::General));
    for i in 0..ITEMS {
        for o in 0..OBSERVERS {
            v.push(Op::Add(i, o));
        }
    }
    for i in 0..ITEMS {
        for o in 0..OBSERVERS {
            v.push(Op::Remove(i, o));
        }
    }
    v
}

/// The reference: selection and registrations.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Model {
    active: [bool; ITEMS],
    general: [u8; OBSERVERS],
    item: [[u8; OBSERVERS]; ITEMS],
}
impl Model {
    /// The calls the step makes.
    fn step(&mut self, op: Op) -> Vec<(usize, Vec<String>)> {
        match op {
            Op::Toggle(i) => {
                self.active[i] = !self.active[i];
                let arg = vec![show(&JsValue::from(self.active[i]))];
                let mut calls = Vec::new();
                for o in 0..OBSERVERS {
                    for _ in 0..self.general[o] + self.item[i][o] {
                        calls.push((o, arg.clone()));
                    }
                }
                calls
            }
            Op::General(o) => {
                self.general[o] += 1;
                Vec::new()
            }
            Op::Add(i, o) => {
                self.item[i][o] += 1;
                Vec::new()
            }
            Op::Remove(i, o) => {
                self.item[i][o] = self.item[i][o].saturating_sub(1);
                Vec::new()
            }
        }
    }
}

/// Category options and tags under one roof.
trait Real {
    fn toggle(&mut self, i: usize);
    fn status(&self, i: usize) -> bool;
    fn general(&mut self, f: js_sys::Function);
    fn add(&mut self, i: usize, f: js_sys::Function);
    fn remove(&mut self, i: usize, f: &js_sys::Function);
}
/// Two sets of handles to the same items, obtained separately and used alternately.
struct Cats {
    h: CategoryHandler,
    handles: Rc<[Vec<ExportCategoryOption>; 2]>,
    turn: std::cell::Cell<usize>,
}
impl Cats {
    fn at(&self, i: usize) -> (Rc<[Vec<ExportCategoryOption>; 2]>, usize, usize) {
        self.turn.set(1 - self.turn.get());
        (self.handles.clone(), self.turn.get(), i)
    }
}
impl Real for Cats {
    fn toggle(&mut self, i: usize) {
        let (h, t, i) = self.at(i);
        self.h.toggle(&h[t][i]);
    }
    fn status(&self, i: usize) -> bool {
        let (h, t, i) = self.at(i);
        self.h.get_status(&h[t][i])
    }
    fn general(&mut self, f: js_sys::Function) {
        self.h.add_general_observer(f);
    }
    fn add(&mut self, i: usize, f: js_sys::Function) {
        let (h, t, i) = self.at(i);
        self.h.add_option_lister(&h[t][i], f);
    }
    fn remove(&mut self, i: usize, f: &js_sys::Function) {
        let (h, t, i) = self.at(i);
        self.h.remove_option_listener(&h[t][i], f);
    }
}
struct Tags {
    h: TagHandler,
    handles: Rc<[Vec<JSTag>; 2]>,
    turn: std::cell::Cell<usize>,
}
impl Tags {
    fn at(&self, i: usize) -> (Rc<[Vec<JSTag>; 2]>, usize, usize) {
        self.turn.set(1 - self.turn.get());
        (self.handles.clone(), self.turn.get(), i)
    }
}
impl Real for Tags {
    fn toggle(&mut self, i: usize) {
        let (h, t, i) = self.at(i);
        self.h.toggle(&h[t][i]);
    }
    fn status(&self, i: usize) -> bool {
        let (h, t, i) = self.at(i);
        self.h.get_status(&h[t][i])
    }
    fn general(&mut self, f: js_sys::Function) {
        self.h.add_general_observer(f);
    }
    fn add(&mut self, i: usize, f: js_sys::Function) {
        let (h, t, i) = self.at(i);
        self.h.add_tag_lister(&h[t][i], f);
    }
    fn remove(&mut self, i: usize, f: &js_sys::Function) {
        let (h, t, i) = self.at(i);
        self.h.remove_tag_listener(&h[t][i], f);
    }
}

thread_local!(static READY: std::cell::OnceCell<Handles> = const { std::cell::OnceCell::new() });
#[derive(Clone)]
struct Handles {
    cats: Rc<[Vec<ExportCategoryOption>; 2]>,
    tags: Rc<[Vec<JSTag>; 2]>,
}
fn handles() -> Result<Handles, String> {
    READY.with(|r| {
        if let Some(h) = r.get() {
            return Ok(h.clone());
        }
        sys::must_load(&sys::image(&catalogue())?)?;
        let s = sys::Session::new()?;
        let options = || -> Result<Vec<ExportCategoryOption>, String> { Ok(sys::list_categories(&s.cats, 20)?.into_iter().flat_map(|c| c.1.into_iter().map(|o| o.1)).collect()) };
        let mut two = [options()?, options()?];
        let mut tags = [sys::list_tags(&s.tags, 20)?, sys::list_tags(&s.tags, 20)?];
        if two[0].len() != ITEMS || two[1].len() != ITEMS || tags[0].len() != ITEMS || tags[1].len() != ITEMS {
            return Err(format!("{} options and {} tags are listed instead of {ITEMS} each", two[0].len(), tags[0].len()));
        }
        for k in 0..2 {
            two[k].truncate(ITEMS);
            tags[k].truncate(ITEMS);
        }
        let h = Handles { cats: Rc::new(two), tags: Rc::new(tags) };
        let _ = r.set(h.clone());
        Ok(h)
    })
}

fn fresh(kind: usize) -> Result<(Box<dyn Real>, Box<dyn Real>), String> {
    let h = handles()?;
    let one = |h: &Handles| -> Result<Box<dyn Real>, String> {
        let s = sys::Session::new()?;
        Ok(if kind == 0 { Box::new(Cats { h: s.cats, handles: h.cats.clone(), turn: 0.into() }) } else { Box::new(Tags { h: s.tags, handles: h.tags.clone(), turn: 0.into() }) })
    };
    Ok((one(&h)?, one(&h)?))
}

fn apply(real: &mut dyn Real, op: Op, fs: &[js_sys::Function]) {
    match op {
        Op::Toggle(i) => real.toggle(i),
        Op::General(o) => real.general(fs[o].clone()),
        Op::Add(i, o) => real.add(i, fs[o].clone()),
        Op::Remove(i, o) => real.remove(i, &fs[o]),
    }
}

/// Runs a history and probes the registrations at the end by toggling every item twice.
fn history(kind: usize, ops: &[Op], cx: &mut Cx) -> Result<Model, String> {
    let log: Log = Arc::new(Mutex::new(Vec::new()));
    let fs: Vec<js_sys::Function> = (0..OBSERVERS).map(|i| observer(i, &log)).collect();
    let (mut real, other) = fresh(kind)?;
    let mut model = Model::default();
    let probe: Vec<Op> = (0..ITEMS).flat_map(|i| [Op::Toggle(i), Op::Toggle(i)]).collect();
    for (n, op) in ops.iter().chain(&probe).enumerate() {
        let what = || if n < ops.len() { format!("step {n} ({op:?}) of {ops:?}") } else { format!("{op:?} after {ops:?}") };
        guarded(|| apply(&mut *real, *op, &fs)).map_err(|e| format!("{}: {e}", what()))?;
        let mut want = model.step(*op);
        let mut got = std::mem::take(&mut *log.lock().map_err(|e| e.to_string())?);
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("{}: the observers were called {got:?} instead of {want:?}", what()));
        }
        let status: Vec<bool> = guarded(|| (0..ITEMS).map(|i| real.status(i)).collect()).map_err(|e| format!("{}: {e}", what()))?;
        if status != model.active {
            return Err(format!("{}: the statuses are {status:?} instead of {:?}", what(), model.active));
        }
        let elsewhere: Vec<bool> = guarded(|| (0..ITEMS).map(|i| other.status(i)).collect())?;
        if elsewhere != [false; ITEMS] {
            return Err(format!("{}: another handler's statuses are {elsewhere:?}", what()));
        }
        if n < ops.len() {
            cx.state(&model);
        }
        cx.outcome(&(&got, &status));
        cx.step(1);
    }
    cx.trace();
    Ok(model)
}

/// Runs a history over two handlers that share the observers; what one is told leaves the other alone.
fn both(kinds: [usize; 2], ops: &[(usize, Op)], cx: &mut Cx) -> Result<(), String> {
    let log: Log = Arc::new(Mutex::new(Vec::new()));
    let fs: Vec<js_sys::Function> = (0..OBSERVERS).map(|i| observer(i, &log)).collect();
    let mut real = if kinds[0] == kinds[1] {
        let (a, b) = fresh(kinds[0])?;
        [a, b]
    } else {
        [fresh(kinds[0])?.0, fresh(kinds[1])?.0]
    };
    let mut model = [Model::default(), Model::default()];
    let probe: Vec<(usize, Op)> = (0..ITEMS).flat_map(|i| [(0, Op::Toggle(i)), (1, Op::Toggle(i)), (0, Op::Toggle(i))]).collect();
    for (n, (k, op)) in ops.iter().chain(&probe).enumerate() {
        let what = || if n < ops.len() { format!("step {n} of {ops:?}") } else { format!("{op:?} of handler {k} after {ops:?}") };
        guarded(|| apply(&mut *real[*k], *op, &fs)).map_err(|e| format!("{}: {e}", what()))?;
        let mut want = model[*k].step(*op);
        let mut got = std::mem::take(&mut *log.lock().map_err(|e| e.to_string())?);
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("{}: the observers were called {got:?} instead of {want:?}", what()));
        }
        for h in 0..2 {
            let status: Vec<bool> = guarded(|| (0..ITEMS).map(|i| real[h].status(i)).collect()).map_err(|e| format!("{}: {e}", what()))?;
            if status != model[h].active {
                return Err(format!("{}: handler {h} reports the statuses {status:?} instead of {:?}", what(), model[h].active));
            }
        }
        if n < ops.len() {
            cx.state(&(kinds, &model));
        }
        cx.outcome(&got);
        cx.step(1);
    }
    cx.trace();
    Ok(())
}

const KIND: [&str; 2] = ["category options", "tags"];

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    // very many items: the numbers that tell them apart are beyond one and two bytes
    f.push(Family::new("many-items", 4, 1, |i| shapes::WIDE[i as usize].into(), |i, cx| wide(i as usize, cx)));
    let ops = Rc::new(alphabet());
    let k = ops.len() as u64;
    for (len, name) in [(1u32, "length-1"), (2, "length-2"), (3, "length-3"), (4, "length-4"), (5, "length-5")] {
        if len == 5 && tier == Tier::Quick {
            continue;
        }
        let mut r = vec![2u64];
        r.extend(vec![k; len as usize]);
        let total = product(&r);
        let r = Rc::new(r);
        let (o1, o2, r2) = (ops.clone(), ops.clone(), r.clone());
        f.push(Family::new(name, total, total.div_ceil(64).max(1), move |i| { let d = digits(i, &r2); format!("{}: {:?}", KIND[d[0]], d[1..].iter().map(|j| o1[*j]).collect::<Vec<_>>()) }, move |i, cx| {
            let d = digits(i, &r);
            let h: Vec<Op> = d[1..].iter().map(|j| o2[*j]).collect();
            history(d[0], &h, cx).map(|_| ())
        }));
    }
    // deeper, over one item and two observers (both kinds): every history
    let small = Rc::new(vec![Op::Toggle(0), Op::Add(0, 0), Op::Add(0, 2), Op::Remove(0, 0), Op::Remove(0, 2), Op::General(0), Op::Add(1, 0), Op::Remove(1, 0)]);
    let len = tier.pick(5, 7) as usize;
    let mut r = vec![2u64];
    r.extend(vec![small.len() as u64; len]);
    let total = product(&r);
    let r = Rc::new(r);
    let (o1, r2) = (small.clone(), r.clone());
    f.push(Family::new("deep", total, total.div_ceil(64), move |i| { let d = digits(i, &r2); format!("{}: {:?}", KIND[d[0]], d[1..].iter().map(|j| o1[*j]).collect::<Vec<_>>()) }, move |i, cx| {
        let d = digits(i, &r);
        let h: Vec<Op> = d[1..].iter().map(|j| small[*j]).collect();
        history(d[0], &h, cx).map(|_| ())
    }));
    // two handlers used alternately
    let small = Rc::new(vec![Op::Toggle(0), Op::Toggle(1), Op::Add(0, 0), Op::Add(0, 2), Op::Remove(0, 0), Op::General(0), Op::General(1), Op::Add(1, 0)]);
    let len = tier.pick(3, 4) as usize;
    let mut r = vec![3u64];
    r.extend(vec![2 * small.len() as u64; len]);
    let total = product(&r);
    let make = Rc::new(move |i: u64| {
        let d = digits(i, &r);
        ([[0usize, 0], [1, 1], [0, 1]][d[0]], d[1..].iter().map(|j| (j % 2, small[j / 2])).collect::<Vec<_>>())
    });
    let m2 = make.clone();
    f.push(Family::new("two-handlers", total, total.div_ceil(64), move |i| { let (k, h) = m2(i); format!("{} and {}: {h:?}", KIND[k[0]], KIND[k[1]]) }, move |i, cx| {
        let (k, h) = make(i);
        both(k, &h, cx)
    }));
    // breadth-first over the abstract states (registrations up to a count), every operation in every state
    let cap = tier.pick(1u8, 2);
    let paths = Rc::new(bfs(cap, tier.pick(6, 7)));
    let r = [2u64, paths.len() as u64];
    let (p1, o1) = (paths.clone(), ops.clone());
    f.push(Family::new("states", product(&r), product(&r).div_ceil(64), move |i| { let d = digits(i, &r); format!("{}: every operation after {:?}", KIND[d[0]], p1[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        for op in o1.iter() {
            let mut h = paths[d[1]].clone();
            h.push(*op);
            history(d[0], &h, cx)?;
        }
        Ok(())
    }));
    // many registrations of the same observer
    f.push(Family::new("repeated", 2 * 40, 10, |i| format!("{}: one observer registered {} times, then removed one by one", KIND[(i % 2) as usize], i / 2), |i, cx| {
        let n = (i / 2) as usize;
        let mut h = vec![Op::Add(0, 1)];
        for j in 0..n {
            h.push(Op::Add(0, 0));
            h.push(Op::Add(0, [1, 2][j % 2]));
        }
        for _ in 0..n + 1 {
            h.push(Op::Remove(0, 0));
            h.push(Op::Toggle(0));
        }
        history((i % 2) as usize, &h, cx).map(|_| ())
    }));
    // very many observers
    let r = [2u64, 3, 4];
    f.push(Family::new("many-observers", product(&r), 6, move |i| { let d = digits(i, &r); format!("{}: {} observers {}", KIND[d[0]], [65, 257, 1025, 3000][d[2]], ["general", "of one item", "general, of one and of another item in turn"][d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        crowd(d[0], d[1], [65, 257, 1025, 3000][d[2]], cx)
    }));
    f
}

enum Item {
    Option(ExportCategoryOption),
    Tag(JSTag),
}

/// Toggles, observes and asks among very many items.
fn wide(kind: usize, cx: &mut Cx) -> Result<(), String> {
    sys::must_load(&sys::image(&shapes::wide(kind))?)?;
    let mut s = sys::Session::new()?;
    let mut items: Vec<Item> = Vec::new();
    for (_, os) in sys::list_categories(&s.cats, 200_000)? {
        items.extend(os.into_iter().map(|o| Item::Option(o.1)));
    }
    items.extend(sys::list_tags(&s.tags, 200_000)?.into_iter().map(Item::Tag));
    let n = items.len();
    let log: Log = Arc::new(Mutex::new(Vec::new()));
    let fs: Vec<js_sys::Function> = (0..2).map(|i| observer(i, &log)).collect();
    let mut probes: Vec<usize> = (0..n).step_by(n / 16).collect();
    for b in [1usize, 127, 128, 255, 256, 257, 512, 16_383, 16_384, 32_768, 65_535, 65_536, 65_537, n - 1] {
        probes.extend([b, b + 256, b ^ 256].into_iter().filter(|x| *x < n));
    }
    probes.sort_unstable();
    probes.dedup();
    let toggle = |s: &mut sys::Session, k: usize| guarded(|| match &items[k] { Item::Option(o) => s.cats.toggle(o), Item::Tag(t) => s.tags.toggle(t) });
    let status = |s: &sys::Session, k: usize| match &items[k] { Item::Option(o) => s.cats.get_status(o), Item::Tag(t) => s.tags.get_status(t) };
    // observer 0 on every second probe
    for k in probes.iter().step_by(2) {
        guarded(|| match &items[*k] { Item::Option(o) => s.cats.add_option_lister(o, fs[0].clone()), Item::Tag(t) => s.tags.add_tag_lister(t, fs[0].clone()) })?;
    }
    let mut active: HashSet<usize> = HashSet::new();
    for round in 0..2 {
        for (j, k) in probes.iter().enumerate() {
            toggle(&mut s, *k)?;
            if !active.remove(k) {
                active.insert(*k);
            }
            let got = std::mem::take(&mut *log.lock().map_err(|e| e.to_string())?);
            let want: Vec<(usize, Vec<String>)> = if j % 2 == 0 { vec![(0, vec![show(&JsValue::from(active.contains(k)))])] } else { Vec::new() };
            if got != want {
                return Err(format!("toggling item {k} of {n} calls the observers {got:?} instead of {want:?}"));
            }
            let wrong = guarded(|| probes.iter().copied().find(|p| status(&s, *p) != active.contains(p)))?;
            if let Some(p) = wrong {
                return Err(format!("after toggling item {k} of {n}, item {p} is {}", if active.contains(&p) { "inactive" } else { "active" }));
            }
            cx.step(1 + probes.len() as u64);
        }
        let all = guarded(|| (0..n).find(|p| status(&s, *p) != active.contains(p)))?;
        if let Some(p) = all {
            return Err(format!("in round {round} item {p} of {n} is {}", if active.contains(&p) { "inactive" } else { "active" }));
        }
        cx.state(&(kind, round, active.len()));
        cx.step(n as u64);
    }
    // all of them active at once, chosen in one order and let go in another; the last one told is asked at
    // once, all of them whenever the number of active ones is about a power of two
    let mut is: Vec<bool> = (0..n).map(|k| active.contains(&k)).collect();
    let mut number = active.len();
    for stride in [7919usize, 104_729] {
        let mut k = stride % n;
        for _ in 0..n {
            toggle(&mut s, k)?;
            is[k] = !is[k];
            number = if is[k] { number + 1 } else { number - 1 };
            let told = log.lock().map_err(|e| e.to_string())?.drain(..).count();
            if told > 1 || guarded(|| status(&s, k))? != is[k] {
                return Err(format!("item {k} of {n} is {} after it has been toggled with {number} active items; {told} observers were called", if is[k] { "inactive" } else { "active" }));
            }
            if (number + 1).is_power_of_two() || number.is_power_of_two() || (number.max(1) - 1).is_power_of_two() || number % 1000 == 0 && number <= 10_000 {
                if let Some(p) = guarded(|| (0..n).find(|p| status(&s, *p) != is[*p]))? {
                    return Err(format!("with {number} active items, item {p} of {n} is {}", if is[p] { "inactive" } else { "active" }));
                }
                cx.state(&(kind, "many active", number));
                cx.step(n as u64);
            }
            cx.step(1);
            k = (k + stride) % n;
        }
        if let Some(p) = guarded(|| (0..n).find(|p| status(&s, *p) != is[*p]))? {
            return Err(format!("with {number} active items, item {p} of {n} is {}", if is[p] { "inactive" } else { "active" }));
        }
    }
    cx.trace();
    Ok(())
}

/// Very many observers, each of its own: general ones, those of an item, or in turn; each is called, a removed
/// one no more.
fn crowd(kind: usize, mode: usize, count: usize, cx: &mut Cx) -> Result<(), String> {
    let log: Log = Arc::new(Mutex::new(Vec::new()));
    let fs: Vec<js_sys::Function> = (0..count).map(|i| observer(i, &log)).collect();
    let (mut real, _) = fresh(kind)?;
    // where each observer is registered: 0 general, 1 item 0, 2 item 1
    let place = |j: usize| match mode { 0 => 0, 1 => 1, _ => j % 3 };
    let mut on = vec![false; count];
    let mut active = [false; ITEMS];
    let mut check = |real: &mut dyn Real, on: &[bool], cx: &mut Cx| -> Result<(), String> {
        for i in 0..ITEMS {
            guarded(|| real.toggle(i))?;
            active[i] = !active[i];
            let arg = vec![show(&JsValue::from(active[i]))];
            let mut got = std::mem::take(&mut *log.lock().map_err(|e| e.to_string())?);
            got.sort();
            let want: Vec<(usize, Vec<String>)> = (0..count).filter(|j| on[*j] && (place(*j) == 0 || place(*j) == i + 1)).map(|j| (j, arg.clone())).collect();
            if got != want {
                let (a, b): (HashSet<_>, HashSet<_>) = (got.iter().cloned().collect(), want.iter().cloned().collect());
                return Err(format!("{} of {count} observers are registered; toggling item {i} makes {} calls instead of {}; missing {:?}, unexpected {:?}", on.iter().filter(|x| **x).count(), got.len(), want.len(), b.difference(&a).take(3).collect::<Vec<_>>(), a.difference(&b).take(3).collect::<Vec<_>>()));
            }
            cx.outcome(&(i, want.len(), active[i]));
            cx.step(1);
        }
        Ok(())
    };
    for j in 0..count {
        let f = fs[j].clone();
        guarded(|| match place(j) { 0 => real.general(f), p => real.add(p - 1, f) })?;
        on[j] = true;
        if j < 70 || (j + 1).is_power_of_two() || j + 1 == count {
            check(&mut *real, &on, cx)?;
            cx.state(&(kind, mode, j));
        }
    }
    // those of items are removed, from the middle outwards
    for j in 0..count {
        let j = if j % 2 == 0 { count / 2 + j / 2 } else { count / 2 - 1 - j / 2 };
        if j >= count || place(j) == 0 {
            continue;
        }
        // of another item it is not registered: nothing changes
        guarded(|| real.remove(2 - place(j), &fs[j]))?;
        guarded(|| real.remove(place(j) - 1, &fs[j]))?;
        on[j] = false;
        let left = on.iter().filter(|x| **x).count();
        if left < 70 || left.is_power_of_two() || left % 100 == 0 {
            check(&mut *real, &on, cx)?;
        }
    }
    cx.trace();
    Ok(())
}

/// A shortest history to every abstract state with counts up to `cap`, up to `depth` steps; the states
/// with few registrations first.
fn bfs(cap: u8, depth: usize) -> Vec<Vec<Op>> {
    let ops = alphabet();
    let mut seen = HashSet::new();
    let mut out = Vec::new();
    let mut todo = VecDeque::new();
    seen.insert(Model::default());
    todo.push_back((Model::default(), Vec::new()));
    while let Some((m, path)) = todo.pop_front() {
        out.push(path.clone());
        if path.len() == depth {
            continue;
        }
        for op in &ops {
            let mut n = m.clone();
            n.step(*op);
            if n.general.iter().chain(n.item.iter().flatten()).any(|c| *c > cap) {
                continue;
            }
            // one item and one observer are enough to vary the counts above one
            if seen.insert(n.clone()) {
                let mut p: Vec<Op> = path.clone();
                p.push(*op);
                todo.push_back((n, p));
            }
        }
        if out.len() > 60_000 {
            break;
        }
    }
    out
}

fn main() {
    run(&Spec {
        prop: "C11",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["an observer does not call back into the handler while it is notified (the boundary forbids it)", "the order of the calls of one toggle is not specified", "JavaScript functions are native stand-ins compared by identity"],
        bounds: |t| vec![
            t.pick("all histories of length 1..4 over 24 operations (3 items, 3 observers, one throwing)", "all histories of length 1..5 over 24 operations").into(),
            t.pick("all histories of length 5 over 8 operations", "all histories of length 7 over 8 operations").into(),
            t.pick("all histories of length 3 over 8 operations on either of two handlers of the same or different kinds that share observers", "all histories of length 4 over 8 operations on either of two handlers of the same or different kinds that share observers").into(),
            "the throwing observer throws, the others return, undefined, null, false, true, 0, texts and objects in turn".into(),
            t.pick("every operation in every abstract state reachable in 6 steps with single registrations (at most 60000 states)", "every operation in every abstract state reachable in 7 steps with up to two registrations (at most 60000 states)").into(),
            "66 000 tags, 66 560 options, 17 000 options, 34 000 options of 17 000 categories: toggles, statuses and observers of a sample of them with those around powers of two; then all of them toggled in two orders, every status asked when the number of active ones is about a power of two".into(),
            "65, 257, 1025 and 3000 different observers: general, of one item, in turn general and of two items; called while they are added and removed".into(),
            "both for category options (two with the same value name) and tags, item handles obtained twice and used alternately; up to 40 registrations of one observer".into(),
        ],
    })
}
