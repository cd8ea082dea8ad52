//! C18: indexing runs do not influence each other. Sequences of runs sharing one allocator, all
//! single and double preemptions of two concurrent runs at every allocation, arena lock and
//! hash-table creation, and hash seeds; every image must have the content of a run on its own.
#[path = "../parts/content.rs"]
mod content;
#[path = "../parts/sched.rs"]
mod sched;

use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

use content::*;
use indexer_lib as ix;
use ix::classic_indexes::ClassicIndexes;
use ix::data::{ProductContainer, RawProduct, SuperAlloc};
use ix::ngram::GramNode;
use sched::*;
use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

/// Content plus everything positional that does not depend on hash order.
#[derive(Clone, Debug, PartialEq)]
struct Dump {
    content: Content,
    ids: Vec<String>,
    vendors: Vec<(usize, String)>,
    orders: BTreeMap<String, Vec<String>>,
    categories: Vec<(String, bool, Vec<String>)>,
    tree: BTreeMap<String, u32>,
}

fn classic_part(pc: &ProductContainer<'_>, c: &ClassicIndexes<'_>) -> (Vec<String>, Vec<(usize, String)>, BTreeMap<String, Vec<String>>, Vec<(String, bool, Vec<String>)>) {
    let ids: Vec<String> = pc.products.iter().map(|p| p.id.clone()).collect();
    let vendors = pc.vendors.by_id.iter().map(|v| (v.id, v.name.clone())).collect();
    let mut orders = BTreeMap::new();
    for k in c.order.options() {
        let ranks = c.order.get_orders(k).cloned().unwrap_or_default();
        let mut by: Vec<(usize, String)> = ranks.iter().enumerate().map(|(i, r)| (*r, ids.get(i).cloned().unwrap_or_else(|| "?".into()))).collect();
        by.sort();
        orders.insert(k.to_string(), by.into_iter().map(|x| x.1).collect());
    }
    let cats = (0..).map_while(|k| c.categories.get(k)).map(|c| (c.name.clone(), c.exclusive, c.options.iter().map(|o| o.name.clone()).collect())).collect();
    (ids, vendors, orders, cats)
}

fn dump(bytes: &[u8]) -> Result<Dump, String> {
    let content = content(bytes)?;
    let (i, c) = sys::must_decode::<5>(bytes)?;
    let (ids, vendors, orders, categories) = classic_part(i.product_container, &c);
    fn walk(n: &GramNode<'_, char>, path: &mut String, out: &mut BTreeMap<String, u32>) {
        out.insert(path.clone(), n.weight.to_bits());
        for k in &n.by_occurances {
            path.push(k.item);
            walk(k, path, out);
            path.pop();
        }
    }
    let mut tree = BTreeMap::new();
    for (c, n) in &i.roots {
        walk(n, &mut c.to_string(), &mut tree);
    }
    Ok(Dump { content, ids, vendors, orders, categories, tree })
}

fn difference(got: &Dump, want: &Dump) -> String {
    if got.content != want.content {
        return diff(&got.content, &want.content);
    }
    if got.ids != want.ids {
        return format!("products {:?} instead of {:?}", got.ids, want.ids);
    }
    if got.vendors != want.vendors {
        return format!("vendors {:?} instead of {:?}", got.vendors, want.vendors);
    }
    if got.orders != want.orders {
        return format!("orders {:?} instead of {:?}", got.orders, want.orders);
    }
    if got.categories != want.categories {
        return format!("categories {:?} instead of {:?}", got.categories, want.categories);
    }
    let at = want.tree.iter().find(|(k, v)| got.tree.get(*k) != Some(v)).map(|(k, _)| k.clone()).or_else(|| got.tree.keys().find(|k| !want.tree.contains_key(*k)).cloned());
    format!("gram tree differs at {at:?}: {:?} instead of {:?}", at.as_ref().and_then(|k| got.tree.get(k)).map(|b| f32::from_bits(*b)), at.as_ref().and_then(|k| want.tree.get(k)).map(|b| f32::from_bits(*b)))
}

/// Catalogues that share ids, vendors, tags, options and grams but differ in everything about them.
const MENU: usize = 9;
fn catalogue(k: usize) -> Vec<P> {
    match k {
        0 => vec![P::new("a").desc("abcab").vendor("v1").tag("t").price("3").title("m"), P::new("b").desc("bca").vendor("v2").opt("Size", &["S"]).price("1").title("k")],
        // the same ids and vendors in another order with other data
        1 => vec![P::new("b").desc("abcdef").vendor("v2").tag("t").tag("u").price("5").title("k").media("x"), P::new("a").desc("abcxx").vendor("v1").opt("Size", &["M", "S"]).price("4").title("m"), P::new("c").desc("cab").vendor("v1").title("a")],
        2 => vec![P::new("x").desc("zzzzzz").vendor("v3").tag("u"), P::new("y").desc("zzzz").vendor("v1").tag("t").opt("Size", &["S"]).opt("Color", &["S"]), P::new("z").vendor("v2")],
        3 => vec![],
        4 => vec![P::new("a")],
        5 => vec![P::new("a").vendor("v2").title("abc").desc("Ærø"), P::new("b").vendor("v2").title("abc").desc("ærØ")],
        6 => shapes::structured(6),
        // the same option, value, tag and vendor names as in the others, in other orders
        7 => vec![P::new("q").opt("Color", &["S", "Red"]).opt("Size", &["S", "M", "L"]).vendor("v3").tag("u").price("7").title("b"), P::new("a").opt("Material", &["M"]).vendor("v2").tag("t").tag("Blå tag").price("2").title("c")],
        _ => vec![P::new("q").opt("Material", &["S"]).opt("Size", &["XL", "M"]).vendor("v1").tag("t").price("2").title("c"), P::new("r").opt("Size", &["S", "L"]).opt("Color", &["Blue", "Red"]).vendor("v3").tag("Blå tag").tag("u").price("7").title("b")],
    }
}

/// Categories and options in order of first use.
fn first_use(ps: &[P]) -> Vec<(String, Vec<String>)> {
    let mut out: Vec<(String, Vec<String>)> = Vec::new();
    for (name, values) in ps.iter().flat_map(|p| &p.options) {
        let at = out.iter().position(|c| c.0 == *name).unwrap_or_else(|| {
            out.push((name.clone(), Vec::new()));
            out.len() - 1
        });
        for v in values {
            if !out[at].1.contains(v) {
                out[at].1.push(v.clone());
            }
        }
    }
    out
}

fn raws() -> &'static [Vec<RawProduct<'static>>] {
    static R: OnceLock<Vec<Vec<RawProduct<'static>>>> = OnceLock::new();
    R.get_or_init(|| (0..MENU).map(|k| sys::raw(&catalogue(k)).unwrap_or_default()).collect())
}

/// The reference: each catalogue indexed alone, checked against the catalogue itself.
fn alone() -> Result<&'static [Dump], String> {
    static D: OnceLock<Result<Vec<Dump>, String>> = OnceLock::new();
    D.get_or_init(|| {
        (0..MENU)
            .map(|k| {
                let ps = catalogue(k);
                let image = sys::image(&ps)?;
                let d = dump(&image)?;
                let want = expected(&ps);
                if d.content != want {
                    return Err(format!("catalogue {k} indexed alone: {}", diff(&d.content, &want)));
                }
                if d.ids != ps.iter().map(|p| p.id.clone()).collect::<Vec<_>>() {
                    return Err(format!("catalogue {k} indexed alone has the products {:?}", d.ids));
                }
                if d.categories.iter().map(|(n, _, o)| (n.clone(), o.clone())).collect::<Vec<_>>() != first_use(&ps) {
                    return Err(format!("catalogue {k} indexed alone has the categories {:?}", d.categories));
                }
                if d.vendors.iter().map(|v| v.1.clone()).collect::<std::collections::BTreeSet<_>>() != ps.iter().map(|p| p.vendor.clone()).collect() {
                    return Err(format!("catalogue {k} indexed alone has the vendors {:?}", d.vendors));
                }
                Ok(d)
            })
            .collect()
    })
    .as_ref()
    .map(|v| &v[..])
    .map_err(Clone::clone)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Job {
    /// index and serialise
    Image(usize),
    /// the first half only: products and classic indexes stay in the allocator
    Optimize(usize),
    /// the exported function (a JSON object, the allocator of the library)
    Exported(usize),
    /// load an image into the allocators of the library
    Load(usize),
}

enum Made {
    Image(usize, Vec<u8>),
    Kept(usize, &'static ProductContainer<'static>, ClassicIndexes<'static>),
    Json(usize, Option<Vec<u8>>),
    Loaded(bool),
}

fn json_object(k: usize) -> String {
    let m: serde_json::Map<String, serde_json::Value> = catalogue(k).iter().map(|p| (p.id.clone(), p.json())).collect();
    serde_json::Value::Object(m).to_string()
}

struct Inputs {
    json: Vec<String>,
    images: Vec<Vec<u8>>,
}
fn inputs() -> &'static Inputs {
    static I: OnceLock<Inputs> = OnceLock::new();
    I.get_or_init(|| Inputs { json: (0..MENU).map(json_object).collect(), images: (0..MENU).map(|k| sys::image(&catalogue(k)).unwrap_or_default()).collect() })
}

fn perform(r: Job, raw: Vec<RawProduct<'static>>, alloc: &'static SuperAlloc) -> Result<Made, String> {
    guarded(|| match r {
        Job::Image(k) => ix::index_and_serialize(raw, alloc).map(|v| Made::Image(k, v)).map_err(|e| e.to_string()),
        Job::Optimize(k) => {
            let (pc, c) = ix::data::optimize(raw, alloc);
            Ok(Made::Kept(k, pc, c))
        }
        Job::Exported(k) => Ok(Made::Json(k, ix::index(&inputs().json[k]))),
        Job::Load(k) => Ok(Made::Loaded(ix::initialize(&inputs().images[k]))),
    })?
}

fn raw_of(r: Job) -> Vec<RawProduct<'static>> {
    match r {
        Job::Image(k) | Job::Optimize(k) => raws()[k].clone(),
        _ => Vec::new(),
    }
}

fn verify(m: &Made) -> Result<(), String> {
    let want = alone()?;
    match m {
        Made::Image(k, bytes) => {
            let d = dump(bytes).map_err(|e| format!("the image of catalogue {k}: {e}"))?;
            if d != want[*k] {
                return Err(format!("the image of catalogue {k}: {}", difference(&d, &want[*k])));
            }
        }
        Made::Json(k, bytes) => {
            let Some(bytes) = bytes else { return Err(format!("the exported index function refuses catalogue {k}")) };
            let c = content(bytes)?;
            if c != want[*k].content {
                return Err(format!("the exported image of catalogue {k}: {}", diff(&c, &want[*k].content)));
            }
        }
        Made::Kept(k, pc, c) => {
            let (ids, vendors, orders, cats) = classic_part(pc, c);
            let w = &want[*k];
            if (&ids, &vendors, &orders, &cats) != (&w.ids, &w.vendors, &w.orders, &w.categories) {
                return Err(format!("what is stored for catalogue {k} became {:?}", (ids, vendors, orders, cats)));
            }
            for (p, q) in pc.products.iter().zip(catalogue(*k)) {
                let price = match pc.extra_features.get(p, "price") {
                    Some(ix::data::FeatureValue::Float(f)) => f.to_bits(),
                    _ => 0,
                };
                if (&p.title, &p.description, &p.vendor.name, price) != (&q.title, &q.desc, &q.vendor, q.price_f32().to_bits()) {
                    return Err(format!("the stored product {:?} of catalogue {k} became {:?} {:?} {:?}", p.id, p.title, p.description, p.vendor.name));
                }
            }
            for t in c.tags.iter() {
                let set: std::collections::BTreeSet<String> = pc.products.iter().filter(|p| t.contains(p)).map(|p| p.id.clone()).collect();
                if w.content.tags.get(&t.name) != Some(&set) {
                    return Err(format!("the stored tag {:?} of catalogue {k} lists {set:?}", t.name));
                }
            }
            if c.tags.iter().count() != w.content.tags.len() {
                return Err(format!("{} tags are stored for catalogue {k}", c.tags.iter().count()));
            }
        }
        Made::Loaded(ok) => {
            if !ok {
                return Err("a valid image is refused".into());
            }
        }
    }
    Ok(())
}

fn sequence(runs: &[Job], cx: &mut Cx) -> Result<(), String> {
    let alloc = sys::super_alloc();
    let mut made: Vec<Made> = Vec::new();
    for (i, r) in runs.iter().enumerate() {
        made.push(perform(*r, raw_of(*r), alloc).map_err(|e| format!("run {}: {e}", i + 1))?);
        // every earlier one is still what it was
        for (j, m) in made.iter().enumerate() {
            verify(m).map_err(|e| format!("after run {} the output of run {}: {e}", i + 1, j + 1))?;
        }
    }
    cx.step(runs.len() as u64);
    cx.trace();
    cx.state(&runs);
    cx.outcome(&runs.len());
    Ok(())
}

/// Very many runs with one allocator: each is checked at once and again whenever the number of runs is about
/// a power of two.
fn very_many(kind: u64, runs: usize, menu: &[Job], cx: &mut Cx) -> Result<(), String> {
    let alloc = sys::super_alloc();
    let mut made: Vec<Made> = Vec::new();
    for i in 0..runs {
        let r = match kind {
            0 => menu[(i * 5 + i / menu.len()) % menu.len()],
            1 => menu[i * menu.len() / runs],
            _ => Job::Optimize(i % MENU),
        };
        made.push(perform(r, raw_of(r), alloc).map_err(|e| format!("run {}: {e}", i + 1))?);
        let all = i.is_power_of_two() || (i + 1).is_power_of_two() || i + 1 == runs;
        for (j, m) in made.iter().enumerate().skip(if all { 0 } else { i }) {
            verify(m).map_err(|e| format!("after run {} the output of run {} ({r:?}): {e}", i + 1, j + 1))?;
        }
        cx.state(&(kind, "very many", i));
    }
    cx.step(runs as u64);
    cx.trace();
    Ok(())
}

fn together(a: &[Job], b: &[Job], mask: u8, two: bool, shard: (u64, u64), cx: &mut Cx) -> Result<(), String> {
    alone()?;
    let programs = [a.to_vec(), b.to_vec()];
    let alloc: Arc<std::sync::Mutex<&'static SuperAlloc>> = Arc::new(std::sync::Mutex::new(sys::super_alloc()));
    let (a2, p2) = (alloc.clone(), programs.clone());
    let body: Body<Result<Vec<Made>, String>> = Arc::new(move |i| {
        let alloc: &'static SuperAlloc = quietly(|| *a2.lock().unwrap_or_else(|e| e.into_inner()));
        let mut out = Vec::new();
        for r in &p2[i] {
            let raw = quietly(|| raw_of(*r));
            out.push(perform(*r, raw, alloc)?);
        }
        Ok(out)
    });
    // one earlier run in the same allocator
    let mut before = Vec::new();
    let mut seed = 0;
    explore_segments(
        mask,
        two,
        shard,
        &body,
        || {
            seed += 1;
            sys::set_seed(seed);
            let fresh = sys::super_alloc();
            *alloc.lock().unwrap_or_else(|e| e.into_inner()) = fresh;
            before = vec![perform(Job::Optimize(1), raw_of(Job::Optimize(1)), fresh)?];
            Ok(())
        },
        |e| {
            cx.step(e.points.iter().sum());
            cx.trace();
            cx.state(&(&programs, &e.points, e.decisions.len(), cx.traces));
            for (i, r) in e.results.into_iter().enumerate() {
                for m in r.map_err(|m| format!("thread {i}: {m}"))? {
                    verify(&m).map_err(|m| format!("thread {i}: {m}"))?;
                    cx.outcome(&match m {
                        Made::Image(k, b) => (k, b.len()),
                        Made::Json(k, b) => (k, b.map_or(0, |b| b.len())),
                        Made::Kept(k, ..) => (k, 0),
                        Made::Loaded(_) => (99, 0),
                    });
                }
            }
            Ok(())
        },
    )?;
    // (the earlier run of the last execution)
    before.iter().try_for_each(verify)
}

/// Direct use of the shared allocator: every history of stores of different types; everything stored
/// before keeps its value and address.
fn alloc_history(ops: &[usize], cx: &mut Cx) -> Result<(), String> {
    let a = sys::super_alloc();
    let mut checks: Vec<Box<dyn Fn() -> bool>> = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        let n = i as u64;
        let check: Box<dyn Fn() -> bool> = guarded(|| -> Box<dyn Fn() -> bool> {
            match op {
                0 => {
                    let r: &'static u64 = a.alloc(n);
                    Box::new(move || *r == n)
                }
                1 => {
                    let r: &'static String = a.alloc(format!("text {n}"));
                    Box::new(move || *r == format!("text {n}"))
                }
                2 => {
                    let r: &'static mut Vec<u64> = a.alloc_mut(vec![n; 3]);
                    r.push(n + 1);
                    Box::new(move || r[..] == [n, n, n, n + 1])
                }
                3 => {
                    let r: &'static () = a.alloc(());
                    Box::new(move || *r == ())
                }
                _ => {
                    let r: &'static mut u64 = a.alloc_mut(n);
                    *r += 1000;
                    Box::new(move || *r == n + 1000)
                }
            }
        })?;
        checks.push(check);
        for (j, c) in checks.iter().enumerate() {
            if !c() {
                return Err(format!("stores {:?}: value {j} changed after store {i}", &ops[..=i]));
            }
        }
    }
    cx.step(ops.len() as u64);
    cx.trace();
    cx.state(&("alloc", ops));
    Ok(())
}

fn families(tier: Tier) -> Vec<Family> {
    use Job::{Exported, Image, Load, Optimize};
    let mut f = Vec::new();
    let menu: Rc<Vec<Job>> = Rc::new((0..MENU).map(Image).chain([Optimize(0), Optimize(1), Exported(0), Exported(1), Load(1)]).collect());
    let m = menu.len() as u64;
    for len in 1..=tier.pick(3usize, 4) {
        let menu = menu.clone();
        let decode = Rc::new(move |i: u64| digits(i, &vec![m; len]).into_iter().map(|d| menu[d]).collect::<Vec<_>>());
        let d2 = decode.clone();
        f.push(Family::new(["", "one-run", "two-runs", "three-runs", "four-runs"][len], m.pow(len as u32), 150, move |i| format!("{:?}", d2(i)), move |i, cx| {
            sys::set_seed(i * 31 + 7);
            sequence(&decode(i), cx)
        }));
    }
    let m3 = menu.clone();
    let runs = tier.pick(8200usize, 40_000);
    f.push(Family::new("very-many-runs", 3, 1, move |i| format!("{runs} runs, {}", ["of all kinds in turn", "of all kinds one after the other", "of the first half only"][i as usize]), move |i, cx| {
        sys::set_seed(i * 31 + 7);
        very_many(i, runs, &m3, cx)
    }));
    let all: Rc<Vec<Job>> = Rc::new(vec![Image(0), Image(1), Image(2), Image(4), Image(5), Optimize(0), Optimize(1), Exported(1), Load(1)]);
    let n = all.len() as u64;
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    for a in 0..n as usize {
        for b in a..n as usize {
            pairs.push((a, b));
        }
    }
    let pairs = Rc::new(pairs);
    let (p2, a2) = (pairs.clone(), all.clone());
    f.push(Family::new("two-threads-every-allocation", pairs.len() as u64, 1, move |i| { let (a, b) = p2[i as usize]; format!("{:?} || {:?}", a2[a], a2[b]) }, {
        let (pairs, all) = (pairs.clone(), all.clone());
        move |i, cx| {
            let (a, b) = pairs[i as usize];
            together(&[all[a]], &[all[b]], ALLOCS | ARENAS | TABLES | LOCKS, false, (0, 1), cx)
        }
    }));
    let small = [Image(0), Image(4), Image(5), Optimize(0), Optimize(1), Exported(0), Load(4)];
    let k = tier.pick(4u64, 7);
    let r = [k, k, 8];
    f.push(Family::new("two-threads-two-preemptions", product(&r), 1, move |i| { let d = digits(i, &r); format!("{:?} || {:?}, arena locks, part {} of 8", small[d[0]], small[d[1]], d[2] + 1) }, move |i, cx| {
        let d = digits(i, &r);
        together(&[small[d[0]]], &[small[d[1]]], ARENAS, true, (d[2] as u64, 8), cx)
    }));
    if tier == Tier::Thorough {
        let r = [7, 7, 7, 7];
        f.push(Family::new("two-threads-two-runs", 7 * 7 * 7 * 7, 20, move |i| { let d = digits(i, &r); format!("{:?} {:?} || {:?} {:?}", small[d[0]], small[d[1]], small[d[2]], small[d[3]]) }, move |i, cx| {
            let d = digits(i, &r);
            together(&[small[d[0]], small[d[1]]], &[small[d[2]], small[d[3]]], ARENAS | LOCKS, false, (0, 1), cx)
        }));
    }
    let len = tier.pick(6usize, 8);
    f.push(Family::new("allocator", 5u64.pow(len as u32), 4000, move |i| format!("stores {:?}", digits(i, &vec![5; len])), move |i, cx| alloc_history(&digits(i, &vec![5; len]), cx)));
    f.push(Family::new("allocator-growth", 3, 1, |i| format!("{} stores", [100, 1000, 3000][i as usize]), |i, cx| {
        let ops: Vec<usize> = (0..[100, 1000, 3000][i as usize]).map(|k| (k * 7 + k / 5) % 5).collect();
        alloc_history(&ops, cx)
    }));
    f.push(Family::new("hash-seeds", tier.pick(200, 3000), 50, |i| format!("hash seed {i}, every catalogue"), |i, cx| {
        for k in 0..MENU {
            sys::set_seed(9000 + i);
            verify(&perform(Image(k), raw_of(Image(k)), sys::super_alloc())?)?;
            cx.step(1);
            cx.trace();
            cx.state(&("seed", i, k));
        }
        Ok(())
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C18",
        level: "model_checking",
        init: || {
            sched::init();
            raws();
            inputs();
            alone().ok();
            sys::load(&inputs().images[0]).ok();
        },
        families,
        assumptions: &["threads switch only at lock operations, arena allocations, hash-table creations and memory allocations", "the order of tags and of equally likely children is free (it follows the hash order)"],
        bounds: |t| vec![
            format!("every sequence of up to {} of {} runs (indexing, first half only, exported indexer, loading) with one allocator", t.pick(3, 4), MENU + 5),
            t.pick("8200 runs with one allocator", "40 000 runs with one allocator").into(),
            "two concurrent runs, 45 pairs: a preemption at every memory allocation, arena lock, hash-table creation and index lock of either".into(),
            t.pick("two preemptions at every arena lock, 16 pairs", "two preemptions at every arena lock, 49 pairs; two runs each, 2401 combinations, one preemption at every arena lock").into(),
            t.pick("every history of 6 stores of 5 kinds in the allocator", "every history of 8 stores of 5 kinds in the allocator").into(),
            "hash seeds".into(),
        ],
    })
}
