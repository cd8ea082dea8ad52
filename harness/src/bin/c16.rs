//! C16: the last successfully loaded index is served, whatever happened before. Every history of
//! loads, failed loads and queries up to a length, each from a process that never loaded anything,
//! in lock step with the model "the last image that was loaded".
#[path = "../parts/served.rs"]
mod served;

use std::rc::Rc;

use indexer_lib as ix;
use served::*;
use vharness::engine::*;
use vharness::model::*;
use vharness::shapes;
use vharness::sys::{self, CategoryHandler, JSTag, TagHandler};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    /// a valid image
    Load(usize),
    /// an image that must be refused (index into broken())
    Fail(usize),
    /// all queries at once
    Query,
    /// obtain handles and keep them
    Keep,
    /// pick up the index through the exported indexer (must not affect what is served)
    Index,
}

fn worlds() -> Result<Vec<World>, String> {
    Ok(vec![world("A")?, world("B")?, world("C")?, world("D")?, world("bare")?, world("empty")?, world("one")?])
}

const BROKEN: usize = 6;
fn broken(k: usize, w: &[World]) -> (String, Vec<u8>) {
    let cut = |i: usize, n: usize| w[i].image[..n].to_vec();
    match k {
        0 => ("no bytes".into(), Vec::new()),
        1 => ("half of B".into(), cut(1, w[1].image.len() / 2)),
        2 => ("A without its last byte".into(), cut(0, w[0].image.len() - 1)),
        3 => ("C without its last quarter".into(), cut(2, w[2].image.len() * 3 / 4)),
        4 => ("the first byte of B".into(), cut(1, 1)),
        _ => ("only 0xff bytes".into(), vec![0xff; 64]),
    }
}

/// Handles obtained while a given image was served.
struct Kept {
    from: usize,
    cats: CategoryHandler,
    tags: TagHandler,
    first_tag: Option<JSTag>,
    suggested: Option<ix::TagSuggestionResult>,
    plain: Option<ix::js_interactable::ProductProducer>,
    sorted: Option<ix::js_interactable::ProductProducer>,
    /// (id, everything a product says) of a product that was taken out of a result
    held: Option<Box<dyn Fn() -> (String, String)>>,
    /// what these handles showed when they were new
    first_look: String,
}

fn look(k: &Kept) -> Result<String, String> {
    let cats = show_categories(&k.cats)?;
    let tags = show_tags(&k.tags)?;
    guarded(|| {
        let first = k.first_tag.as_ref().map(|t| t.get_name());
        let suggested = k.suggested.as_ref().map(|s| (s.get_tag().get_name(), s.get_input()));
        let held = k.held.as_ref().map(|p| p());
        format!("{cats} {tags} {first:?} {suggested:?} {held:?}")
    })
}

fn keep(from: usize, w: &[World]) -> Result<Kept, String> {
    let s = sys::Session::new()?;
    let query = query();
    let mut plain = guarded(|| ix::search(&query, &s.cats, &s.tags, None, &sys::no_filter()))?;
    let sorted = guarded(|| ix::search(&query, &s.cats, &s.tags, Some(ORDERS[0].into()), &sys::no_filter()))?;
    let suggested = guarded(|| ix::tag_suggestion(WORDS))?;
    let first_tag = sys::list_tags(&s.tags, 50)?.into_iter().next();
    let held = guarded(|| plain.as_mut().and_then(|p| p.next_product()))?
        .map(|p| Box::new(move || (p.get_id(), format!("{} {} {:?} {:?}", p.get_title(), p.get_description(), p.numeric_feature("price"), p.string_feature("image_url")))) as Box<dyn Fn() -> (String, String)>);
    let mut k = Kept { from, cats: s.cats, tags: s.tags, first_tag, suggested, plain, sorted, held, first_look: String::new() };
    k.first_look = look(&k)?;
    for a in [Ask::Categories, Ask::Tags, Ask::Suggest] {
        let want = expected(Some(&w[from]), a);
        let want = if a == Ask::Suggest && want == "nothing" { "None".to_string() } else if a == Ask::Suggest { format!("Some({want})") } else { want };
        if !k.first_look.contains(&want) {
            return Err(format!("new handles on {} show {} instead of {want}", w[from].name, k.first_look));
        }
    }
    Ok(k)
}

/// Handles kept from earlier still describe the image they came from. `last`: also use up the results.
fn check_kept(k: &mut Kept, w: &[World], last: bool) -> Result<(), String> {
    let now = look(k)?;
    if now != k.first_look {
        return Err(format!("handles obtained from {} showed {} and now show {now}", w[k.from].name, k.first_look));
    }
    if !last {
        return Ok(());
    }
    let home = &w[k.from];
    if let Some(r) = &mut k.sorted {
        let got = guarded(|| show_result(r, false))?;
        let want = expected(Some(home), Ask::Sorted(0));
        if got != want {
            return Err(format!("a result obtained from {} yields {got} instead of {want}", home.name));
        }
    } else {
        return Err(format!("no sorted result from {}", home.name));
    }
    if let Some(r) = &mut k.plain {
        let mut ids: Vec<String> = guarded(|| sys::drain_ids(r, 50))?;
        ids.extend(k.held.as_ref().map(|h| h().0));
        ids.sort();
        let mut want: Vec<String> = home.found().map(|p| p.id.clone()).collect();
        want.sort();
        if ids != want {
            return Err(format!("a result obtained from {} yields the products {ids:?}", home.name));
        }
    } else {
        return Err(format!("no result from {}", home.name));
    }
    // The handles are still usable: toggling them has no effect on what others see.
    let options: Vec<_> = sys::list_categories(&k.cats, 50)?.into_iter().flat_map(|c| c.1).collect();
    for (_, o) in &options {
        guarded(|| k.cats.toggle(o))?;
        if !guarded(|| k.cats.get_status(o))? {
            return Err("an option of an earlier listing cannot be selected".into());
        }
    }
    for t in sys::list_tags(&k.tags, 50)? {
        guarded(|| k.tags.toggle(&t))?;
        if !guarded(|| k.tags.get_status(&t))? {
            return Err("a tag of an earlier listing cannot be selected".into());
        }
    }
    let now = look(k)?;
    if now != k.first_look {
        return Err(format!("toggling changed what the handles show: {now}"));
    }
    Ok(())
}

fn all_queries(current: Option<usize>, w: &[World]) -> Result<u64, String> {
    let (c, t) = idle_handlers()?;
    for a in ALL_ASKS {
        let want = expected(current.map(|c| &w[c]), a);
        let got = ask(a, &c, &t);
        if got != want {
            return Err(format!("{a:?} answers {got} instead of {want}"));
        }
    }
    Ok(ALL_ASKS.len() as u64)
}

fn history(ops: &[Op], w: &[World], query_each_step: bool, cx: &mut Cx) -> Result<(), String> {
    let answer = sys::forked(|| {
        let mut current: Option<usize> = None;
        let mut kept: Vec<Kept> = Vec::new();
        let mut steps = 0u64;
        let n = ops.len();
        if query_each_step {
            steps += all_queries(None, w).map_err(|e| format!("before anything was loaded: {e}"))?;
        }
        for (i, op) in ops.iter().enumerate() {
            let at = |e: String| format!("step {} ({op:?}): {e}", i + 1);
            match op {
                Op::Load(k) => {
                    sys::must_load(&w[*k].image).map_err(at)?;
                    current = Some(*k);
                }
                Op::Fail(k) => {
                    let (what, bytes) = broken(*k, w);
                    // refused by an answer or by a trap, but refused
                    if let Ok(true) = sys::load(&bytes) {
                        return Err(at(format!("loading {what} succeeded")));
                    }
                }
                Op::Query => steps += all_queries(current, w).map_err(at)?,
                Op::Keep => {
                    if let Some(c) = current {
                        kept.push(keep(c, w).map_err(at)?);
                    } else if sys::categories()?.is_some() || sys::tags()?.is_some() {
                        return Err(at("handles are handed out although nothing is loaded".into()));
                    }
                }
                Op::Index => {
                    let json: serde_json::Map<String, serde_json::Value> = catalogue("D").iter().map(|p| (p.id.clone(), p.json())).collect();
                    let text = serde_json::Value::Object(json).to_string();
                    match guarded(|| ix::index(&text)) {
                        Ok(Some(_)) => (),
                        Ok(None) => return Err(at("indexing a catalogue failed".into())),
                        Err(e) => return Err(at(e)),
                    }
                }
            }
            steps += 1;
            if query_each_step || i + 1 == n {
                steps += all_queries(current, w).map_err(|e| at(format!("afterwards {e}")))?;
            }
            for k in &mut kept {
                check_kept(k, w, false).map_err(at)?;
            }
        }
        for k in &mut kept {
            check_kept(k, w, true)?;
        }
        steps += all_queries(current, w).map_err(|e| format!("at the end {e}"))?;
        Ok(format!("{steps} {current:?} {}", kept.len()))
    })?;
    let steps: u64 = answer.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    cx.step(steps);
    cx.trace();
    cx.state(&(ops, query_each_step));
    cx.outcome(&answer);
    Ok(())
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let w = Rc::new(worlds());
    let mut add = |name: &'static str, menu: Vec<Op>, lens: std::ops::RangeInclusive<u32>, chunk: u64| {
        let m = menu.len() as u64;
        let sizes: Vec<u64> = lens.clone().map(|l| m.pow(l)).collect();
        let first = *lens.start();
        let decode = Rc::new(move |mut i: u64| -> (Vec<Op>, bool) {
            let each = i % 2 == 0;
            i /= 2;
            let mut len = first;
            for s in &sizes {
                if i < *s {
                    break;
                }
                i -= s;
                len += 1;
            }
            (digits(i, &vec![m; len as usize]).into_iter().map(|d| menu[d]).collect(), each)
        });
        let total = 2 * lens.map(|l| m.pow(l)).sum::<u64>();
        let d2 = decode.clone();
        let w = w.clone();
        f.push(Family::new(name, total, chunk, move |i| { let (ops, each) = d2(i); format!("{ops:?}{}", if each { ", all queries after each step" } else { "" }) }, move |i, cx| {
            let (ops, each) = decode(i);
            match &*w {
                Ok(w) => history(&ops, w, each, cx),
                Err(e) => Err(e.clone()),
            }
        }));
    };
    use Op::{Fail, Index, Keep, Load, Query};
    add("loads-and-failures", vec![Load(0), Load(1), Load(2), Fail(0), Fail(1), Fail(2), Keep], 0..=tier.pick(4, 5), 300);
    add("every-damage", (0..BROKEN).map(Fail).chain([Load(0), Load(3)]).collect(), 1..=tier.pick(3, 4), 100);
    add("long", vec![Load(0), Load(1), Fail(2), Keep], 5..=tier.pick(5, 7), 300);
    add("with-indexing", vec![Load(0), Load(3), Fail(1), Index, Keep, Query], 1..=tier.pick(3, 4), 60);
    add("bare-catalogues", vec![Load(0), Load(4), Load(5), Load(6), Fail(2), Keep], 1..=tier.pick(4, 5), 200);
    // images that differ in one detail only, loaded one after the other
    let k = shapes::details().len() as u64;
    let r = [k, k];
    f.push(Family::new("twins", product(&r), 60, move |i| { let d = digits(i, &r); format!("the image {}, then the image {}, then the first again", shapes::details()[d[0]].0, shapes::details()[d[1]].0) }, move |i, cx| {
        let d = digits(i, &r);
        let mut images = Vec::new();
        for k in &d {
            // the same random order of everything that is the same
            sys::set_seed(7);
            images.push(sys::image(&shapes::details()[*k].1)?);
        }
        let alone = images.iter().map(|b| sys::forked(|| { sys::must_load(b)?; snapshot() })).collect::<Result<Vec<_>, _>>()?;
        let both = sys::forked(|| {
            for (n, k) in [0usize, 1, 0, 1, 1].into_iter().enumerate() {
                sys::must_load(&images[k])?;
                let s = snapshot()?;
                if s != alone[k] {
                    let (a, b): (Vec<&str>, Vec<&str>) = (s.lines().collect(), alone[k].lines().collect());
                    let line = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                    return Err(format!("load {} ({}): {:?} is answered instead of {:?}", n + 1, shapes::details()[d[k]].0, a.get(line), b.get(line)));
                }
            }
            Ok(String::new())
        });
        both?;
        cx.step(5 * 30);
        cx.state(&alone);
        cx.outcome(&(images[0].len() == images[1].len(), alone[0] == alone[1]));
        cx.trace();
        Ok(())
    }));
    // the same question before and after
    let r = [k, k];
    f.push(Family::new("asked-again", product(&r), 30, move |i| { let d = digits(i, &r); format!("each question to the image {}, to the image {}, and to the first again", shapes::details()[d[0]].0, shapes::details()[d[1]].0) }, move |i, cx| {
        let d = digits(i, &r);
        let mut images = Vec::new();
        for k in &d {
            sys::set_seed(7);
            images.push(sys::image(&shapes::details()[*k].1)?);
        }
        let n = questions().len();
        let alone = images.iter().map(|b| sys::forked(|| {
            sys::must_load(b)?;
            let a = (0..n).map(question).collect::<Result<Vec<_>, _>>()?;
            if a.iter().any(|a| a.contains('\n')) { return Err("an answer of several lines".into()) }
            Ok(a.join("\n"))
        })).collect::<Result<Vec<_>, _>>()?;
        let alone: Vec<Vec<&str>> = alone.iter().map(|a| a.split('\n').collect()).collect();
        let (mut steps, mut different) = (0, 0);
        sys::forked(|| {
            for q in 0..n {
                for k in [0usize, 1, 0] {
                    sys::must_load(&images[k])?;
                    let a = question(q)?;
                    if a != alone[k][q] {
                        return Err(format!("after loading the image {}: {:?} is answered {a:?} instead of {:?}", shapes::details()[d[k]].0, questions()[q], alone[k][q]));
                    }
                }
            }
            Ok(String::new())
        })?;
        for q in 0..n {
            steps += 6;
            different += u64::from(alone[0][q] != alone[1][q]);
        }
        cx.step(steps);
        cx.state(&alone);
        cx.outcome(&different);
        cx.trace();
        Ok(())
    }));
    // very long histories
    let w2 = w.clone();
    let long = tier.pick(1usize, 5);
    f.push(Family::new("very-long", LONG.len() as u64, 1, |i| LONG[i as usize].into(), move |i, cx| match &*w2 {
        Ok(w) => very_long(i as usize, long, w, cx),
        Err(e) => Err(e.clone()),
    }));
    f
}

const LONG: [&str; 6] = ["66 000 loads of four images in turn", "66 000 loads with a failing one before each", "660 000 questions, a load, 660 000 questions", "66 000 loads of one image, then of another", "3000 sets of handles kept from loads of four images in turn", "66 000 failing loads, before and after a load"];
fn very_long(kind: usize, times: usize, w: &[World], cx: &mut Cx) -> Result<(), String> {
    let answer = sys::forked(|| {
        let (c, t) = idle_handlers()?;
        let mut steps = 0u64;
        let mut one = |n: usize, current: Option<usize>| -> Result<(), String> {
            let a = ALL_ASKS[n % ALL_ASKS.len()];
            let (got, want) = (ask(a, &c, &t), expected(current.map(|c| &w[c]), a));
            steps += 1;
            if got == want { Ok(()) } else { Err(format!("after {n} steps {a:?} answers {got} instead of {want}")) }
        };
        let fail = |n: usize| -> Result<(), String> {
            let (what, bytes) = broken(n % BROKEN, w);
            if let Ok(true) = sys::load(&bytes) { Err(format!("after {n} steps loading {what} succeeded")) } else { Ok(()) }
        };
        let load = |n: usize, k: usize| sys::must_load(&w[k].image).map_err(|e| format!("after {n} loads: {e}"));
        // what is loaded is never released: more would not fit into memory
        let loads = times.min(2);
        let mut current = 0;
        match kind {
            0 | 1 => for n in 0..66_000 * loads {
                if kind == 1 {
                    fail(n)?;
                    one(n, (n > 0).then_some(current))?;
                }
                // the order changes from round to round
                current = (n + n / 4) % 4;
                load(n, current)?;
                one(n, Some(current))?;
                if (n + 1).is_power_of_two() || n.is_power_of_two() {
                    all_queries(Some(current), w).map_err(|e| format!("after {n} loads {e}"))?;
                }
            },
            2 => for n in 0..1_320_000 * times {
                if n % (660_000 * times) == 0 {
                    current = n / (660_000 * times);
                    load(n, current)?;
                }
                one(n, Some(current))?;
            },
            3 => for n in 0..66_000 * loads {
                load(n, 1)?;
                one(n, Some(1))?;
                current = 1;
            },
            4 => {
                let mut kept = Vec::new();
                for n in 0..3000 * times {
                    current = (n + n / 4) % 4;
                    load(n, current)?;
                    kept.push(keep(current, w).map_err(|e| format!("after {n} loads: {e}"))?);
                    one(n, Some(current))?;
                }
                for k in &mut kept {
                    check_kept(k, w, true)?;
                }
            }
            _ => for n in 0..66_000 * loads {
                fail(n)?;
                if n == 33_000 {
                    load(n, 2)?;
                    current = 2;
                }
                if n % 16 == 0 {
                    one(n / 16, (current == 2).then_some(2))?;
                }
            },
        }
        if kind != 5 {
            all_queries(Some(current), w)?;
        }
        current = 3;
        load(0, current)?;
        steps += all_queries(Some(current), w).map_err(|e| format!("after one more load {e}"))?;
        Ok(format!("{steps}"))
    })?;
    cx.step(answer.parse().unwrap_or(0));
    cx.state(&("very long", kind));
    cx.outcome(&answer);
    cx.trace();
    Ok(())
}

/// What single questions ask: a search (with a sort order), a suggestion or a listing.
fn questions() -> Vec<(&'static str, String, Option<&'static str>)> {
    let mut out = Vec::new();
    let mut words: Vec<String> = (0..4).map(token).collect();
    words.push(words.concat());
    words.extend(["beta", " beta", "vendor one", "tit1vendor", "alphabet"].map(String::from));
    for w in words {
        for o in [None, Some(ORDERS[0]), Some(ORDERS[2])] {
            out.push(("search", w.clone(), o));
        }
    }
    for w in ["first", "other"] {
        out.push(("suggest", w.to_string(), None));
    }
    out.push(("categories", String::new(), None));
    out.push(("tags", String::new(), None));
    out
}

fn question(q: usize) -> Result<String, String> {
    let (c, t) = idle_handlers()?;
    let (kind, text, order) = &questions()[q];
    match *kind {
        "search" => guarded(|| match ix::search(text, &c, &t, order.map(String::from), &sys::no_filter()) {
            Some(mut r) => show_result(&mut r, order.is_none()),
            None => "nothing".into(),
        }),
        "suggest" => Ok(format!("{:?}", sys::suggest(text)?)),
        "categories" => Ok(ask(Ask::Categories, &c, &t)),
        _ => Ok(ask(Ask::Tags, &c, &t)),
    }
}

/// What every exported function answers.
fn snapshot() -> Result<String, String> {
    let mut out: Vec<String> = Vec::new();
    let plain = sys::Session::new()?;
    let mut words: Vec<String> = (0..4).map(token).collect();
    words.push(words.concat());
    words.extend(["alpha", "alpah", "beta", "vendor one", "vendor six", "tit1", "tip1", "ending one", "ending two", "xalpha"].map(String::from));
    let rows = |s: &sys::Session, q: &str, o: Option<&str>| -> Result<String, String> {
        let mut v: Vec<String> = s.found(q, o, &sys::no_filter(), 50)?.ok_or("no result")?.iter().map(|f| format!("{f:?}")).collect();
        if o.is_none() {
            v.sort();
        }
        Ok(format!("{v:?}"))
    };
    for q in &words {
        for o in [None, Some(ORDERS[0]), Some(ORDERS[1]), Some(ORDERS[2])] {
            out.push(format!("search {q} {o:?}: {}", rows(&plain, q, o)?));
        }
    }
    for (c, os) in sys::list_categories(&plain.cats, 50)? {
        for (o, h) in os {
            let mut s = sys::Session::new()?;
            guarded(|| s.cats.toggle(&h))?;
            out.push(format!("option {c} {o}: {}", rows(&s, &words[4], Some(ORDERS[0]))?));
        }
    }
    let mut tags = Vec::new();
    for t in sys::list_tags(&plain.tags, 50)? {
        let mut s = sys::Session::new()?;
        guarded(|| s.tags.toggle(&t))?;
        tags.push(format!("tag {}: {}", guarded(|| t.get_name())?, rows(&s, &words[4], Some(ORDERS[1]))?));
    }
    tags.sort();
    out.extend(tags);
    for w in ["first", "fiRst", "other", "otter"] {
        out.push(format!("suggestion for {w}: {:?}", sys::suggest(w)?));
    }
    out.push(format!("orders: {:?}", sys::orders()?));
    Ok(out.join("\n"))
}

fn main() {
    run(&Spec {
        prop: "C16",
        level: "model_checking",
        init: || {
            sys::init();
            idle_handlers().ok();
        },
        families,
        assumptions: &["a refused load is one that returns false or traps (panics); both must leave everything as it was", "a search before the first load is given handlers with nothing selected"],
        bounds: |t| vec![
            t.pick("every history of up to 4 steps over {load A, B, C, three failing loads, keep handles}, 3 steps over six kinds of damage, 5 steps over 4 operations, 3 steps with indexing", "every history of up to 5 steps over {load A, B, C, three failing loads, keep handles}, 4 steps over six kinds of damage, 7 steps over 4 operations, 4 steps with indexing").into(),
            "every history of catalogues without products, with a single product, without tags and options; every pair of 30 images that differ in one detail (loaded x, y, x, y, y; 70 answers after each load equal those of a process that only ever loaded that image)".into(),
            "each of 34 questions to every pair of these images (load x, ask, load y, ask, load x, ask)".into(),
            t.pick("66 000 loads of four images in turn, with failing ones between them, of one image; 660 000 questions before and after a load; 3000 sets of handles kept; 66 000 failing loads", "132 000 loads of four images in turn, with failing ones between them, of one image; 3 300 000 questions before and after a load; 15 000 sets of handles kept; 132 000 failing loads").into(),
            "each history with the nine queries after every step and again with queries only at its end".into(),
        ],
    })
}
