use std::collections::BTreeSet;
use std::rc::Rc;

use indexer_lib as ix;
use ix::js_interactable::{ExportCategoryOption, JSTag};
use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

/// 64 products: every combination of four options and two tags. "S" is a value of both categories.
fn lattice() -> Vec<P> {
    (0..64usize)
        .map(|m| {
            let on = |b: usize| m >> b & 1 == 1;
            // an empty id and ids that differ only in case or spaces are ids like any other
            let id = match m { 21 => String::new(), 22 => " ".into(), 23 => "ID24".into(), _ => format!("id{m}") };
            let mut p = P::new(&id).desc(&format!("{} {}", token(m), if m % 3 == 0 { "alpha beta" } else { "alpha" })).title(&format!("title {:02}", (m * 29) % 64)).price(&format!("{}.5", m % 7));
            let mut size: Vec<&str> = Vec::new();
            let mut color: Vec<&str> = Vec::new();
            if on(0) { size.push("S"); }
            if on(1) { size.push("M"); }
            if on(2) { color.push("S"); }
            if on(3) { color.push("Red"); }
            if !size.is_empty() { p = p.opt("Size", &size); }
            if !color.is_empty() { p = p.opt("Color", &color); }
            if on(4) { p = p.tag("t"); }
            if on(5) { p = p.tag("u"); }
            if m % 2 == 0 { p = p.media(&format!("img{}", m % 4)); }
            p
        })
        .collect()
}

#[derive(Clone, Debug)]
enum F {
    Price(f64, f64),
    AtLeast(f64),
    Image(String),
    ExactPrice(f64),
    Unknown,
    /// a filter on a feature nobody has that restricts nothing
    Open(&'static str),
}
impl F {
    fn ok(&self, p: &P) -> bool {
        let price = f64::from(p.price_f32());
        match self {
            F::Price(a, b) => *a <= price && price <= *b,
            F::AtLeast(a) => *a <= price,
            F::Image(u) => p.media.first() == Some(u),
            F::ExactPrice(x) => price == *x,
            F::Unknown => false,
            F::Open(_) => true,
        }
    }
    fn entry(&self) -> (&'static str, Vec<(&'static str, wasm_bindgen::JsValue)>) {
        use wasm_bindgen::JsValue as V;
        match self {
            F::Price(a, b) => ("price", vec![("from", V::from(*a)), ("to", V::from(*b))]),
            F::AtLeast(a) => ("price", vec![("from", V::from(*a))]),
            F::Image(u) => ("image_url", vec![("exact", V::from(u.as_str()))]),
            F::ExactPrice(x) => ("price", vec![("exact", V::from(*x))]),
            F::Open(name) => (name, vec![("from", V::NULL)]),
            F::Unknown => ("no such feature", vec![("exact", V::from(1.0))]),
        }
    }
}
fn object(fs: &[F]) -> js_sys::Object {
    let o = js_sys::Object::new();
    for f in fs {
        let (key, members) = f.entry();
        let inner = js_sys::Object::new();
        for (k, v) in members {
            let _ = js_sys::Reflect::set(&inner, &k.into(), &v);
        }
        let _ = js_sys::Reflect::set(&o, &key.into(), &inner);
    }
    o
}

fn filters() -> Vec<Vec<F>> {
    vec![
        vec![],
        vec![F::Price(1.5, 3.5)],
        vec![F::AtLeast(4.0)],
        vec![F::Image("img2".into())],
        vec![F::ExactPrice(2.5)],
        vec![F::Image("img0".into()), F::Price(0.0, 4.0)],
        vec![F::Price(2.0, 6.0), F::Image("img0".into())],
        vec![F::Unknown],
        vec![F::AtLeast(0.0), F::Unknown],
        vec![F::Open("a"), F::Open("b"), F::Open("c")],
        vec![F::Open("a"), F::Price(1.0, 5.0), F::Open("b"), F::Image("img2".into())],
        ["a", "b", "c", "d", "e", "f", "g", "h"].into_iter().map(F::Open).chain([F::AtLeast(1.5)]).chain(["i", "j", "k", "l", "m", "n", "o", "p"].into_iter().map(F::Open)).collect(),
    ]
}

struct Items {
    options: Vec<(String, String, ExportCategoryOption)>,
    tags: Vec<JSTag>,
}
fn items(s: &sys::Session) -> Result<Items, String> {
    let mut options = Vec::new();
    for (c, os) in sys::list_categories(&s.cats, 10_000)? {
        for (o, h) in os {
            options.push((c.clone(), o, h));
        }
    }
    Ok(Items { options, tags: sys::list_tags(&s.tags, 10_000)? })
}

/// Toggles the items of `active` (bit per option, then per tag).
fn select(s: &mut sys::Session, it: &Items, active: usize, how: usize) -> Result<(), String> {
    let k = it.options.len();
    let n = k + it.tags.len();
    guarded(|| {
        let flip = |s: &mut sys::Session, i: usize| if i < k { s.cats.toggle(&it.options[i].2) } else { s.tags.toggle(&it.tags[i - k]) };
        let order: Vec<usize> = if how % 2 == 0 { (0..n).collect() } else { (0..n).rev().collect() };
        if how >= 2 {
            // the inactive ones were active once
            for i in &order {
                flip(s, *i);
            }
            for i in &order {
                if active >> i & 1 == 0 {
                    flip(s, *i);
                }
            }
        } else {
            for i in &order {
                if active >> i & 1 == 1 {
                    flip(s, *i);
                }
            }
        }
    })
}

fn is_active(s: &sys::Session, it: &Items) -> usize {
    let k = it.options.len();
    let mut m = 0;
    for (i, o) in it.options.iter().enumerate() {
        if s.cats.get_status(&o.2) { m |= 1 << i; }
    }
    for (i, t) in it.tags.iter().enumerate() {
        if s.tags.get_status(t) { m |= 1 << (k + i); }
    }
    m
}

fn member(p: &P, it: &Items, active: usize) -> bool {
    let k = it.options.len();
    it.options.iter().enumerate().all(|(i, (c, o, _))| active >> i & 1 == 0 || p.options.iter().any(|(n, v)| n == c && v.contains(o)))
        && it.tags.iter().enumerate().all(|(i, t)| active >> (k + i) & 1 == 0 || p.tags.contains(&t.get_name()))
}

fn check(ps: &[P], r: &Ref, s: &sys::Session, plain: &sys::Session, it: &Items, active: usize, queries: &[String], cx: &mut Cx) -> Result<(), String> {
    let by_id: std::collections::HashMap<&str, &P> = ps.iter().map(|p| (p.id.as_str(), p)).collect();
    let cap = ps.len() * 2 + 10;
    for q in queries {
        let base: BTreeSet<String> = plain.ids(q, None, &sys::no_filter(), cap)?.ok_or("an unfiltered search gives no result")?.into_iter().collect();
        let score = scores(r, &lower(q), 64);
        for fs in filters() {
            let obj = object(&fs);
            let want: BTreeSet<String> = base.iter().filter(|id| by_id.get(id.as_str()).is_some_and(|p| member(p, it, active) && fs.iter().all(|f| f.ok(p)))).cloned().collect();
            for order in [None, Some("Alphabetical"), Some("Price high to low")] {
                let what = || format!("search {q:?} order {order:?} filters {fs:?} with {} selections", active.count_ones());
                let got = s.ids(q, order, &obj, cap).map_err(|e| format!("{}: {e}", what()))?.ok_or_else(|| format!("{}: no result", what()))?;
                let set: BTreeSet<String> = got.iter().cloned().collect();
                if set.len() != got.len() {
                    return Err(format!("{}: a product is returned twice: {got:?}", what()));
                }
                if let Some(x) = set.difference(&want).next() {
                    return Err(format!("{}: product {x:?} is returned although {}", what(), if base.contains(x) { "it does not qualify" } else { "the unfiltered search does not return it" }));
                }
                if let Some(x) = want.difference(&set).next() {
                    return Err(format!("{}: product {x:?} qualifies and is missing", what()));
                }
                if let (None, Some(options)) = (order, &score) {
                    let pos = sys::positions(ps, &got)?;
                    let falling = |m: &std::collections::BTreeMap<usize, f64>| pos.windows(2).all(|w| match (m.get(&w[0]), m.get(&w[1])) { (Some(a), Some(b)) => a >= b || close(*a, *b), _ => true });
                    if !options.iter().any(falling) {
                        return Err(format!("{}: the products are not in the order of falling confidence: {got:?}", what()));
                    }
                }
                cx.state(&(&got, active));
                cx.outcome(&got);
                cx.step(1);
                cx.trace();
            }
        }
    }
    if is_active(s, it) != active {
        return Err(format!("the selection was {active:b} and is {:b} after the searches", is_active(s, it)));
    }
    Ok(())
}

fn queries(n: usize) -> Vec<String> {
    vec![(0..n).map(token).collect::<String>(), "beta alpha".into(), token(n / 2), "nothing at all".into()]
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let many = tier.pick(vec![88_000usize], vec![180_000, 88_000, 65_537, 17_000]);
    let r = [many.len() as u64, 8];
    let m2 = many.clone();
    f.push(Family::new("many", product(&r), 1, move |i| { let d = digits(i, &r); format!("{} products, active items number {}", m2[d[0]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::many(many[d[0]]);
        sys::set_seed(i + 1);
        sys::must_load(&sys::image(&ps)?)?;
        let plain = sys::Session::new()?;
        let mut s = sys::Session::new()?;
        let it = items(&s)?;
        // options S, M, L and two tags
        let active = [0b00001, 0b00010, 0b01000, 0b10000, 0b11000, 0b01100, 0b10010, 0b00011][d[1]];
        select(&mut s, &it, active, d[1] % 4)?;
        check(&ps, &Ref::new(&[], 5), &s, &plain, &it, active, &["rundtkantet".into()], cx).map_err(shapes::cut)
    }));
    let r = [4u64, 64];
    f.push(Family::new("lattice", product(&r), 8, move |i| { let d = digits(i, &r); format!("64 products, active items {:06b}, toggled in way {}", d[1], d[0]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = lattice();
        sys::set_seed(i + 1);
        sys::must_load(&sys::image(&ps)?)?;
        let plain = sys::Session::new()?;
        let mut s = sys::Session::new()?;
        let it = items(&s)?;
        if it.options.len() != 4 || it.tags.len() != 2 {
            return Err(format!("{} options and {} tags are listed instead of 4 and 2", it.options.len(), it.tags.len()));
        }
        select(&mut s, &it, d[1], d[0])?;
        check(&ps, &Ref::of(&ps, 5), &s, &plain, &it, d[1], &queries(64), cx)
    }));
    // very many active items: product i lacks item i only, the last product lacks none
    let counts: Vec<usize> = tier.pick(vec![7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257], (1..=140).chain([255, 256, 257, 300, 511, 513, 1_000]).collect());
    let r = [counts.len() as u64, 3];
    let c2 = counts.clone();
    f.push(Family::new("all-but-one", product(&r), tier.pick(3, 12), move |i| { let d = digits(i, &r); format!("{} items ({}), all but one active", c2[d[0]], ["tags", "options of one category", "options of many categories and tags"][d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let n = counts[d[0]];
        let ps: Vec<P> = (0..=n).map(|i| {
            let mut p = P::new(&format!("id{i}")).desc(&format!("{} word{}", token(i % 60), if i % 2 == 0 { "" } else { "s" }));
            for j in (0..n).filter(|j| *j != i) {
                p = match d[1] {
                    0 => p.tag(&format!("t{j}")),
                    1 => p.opt("c", &[&format!("v{j}")]),
                    _ if j % 4 == 0 => p.tag(&format!("t{j}")),
                    _ => p.opt(&format!("c{}", j / 5), &[&format!("v{}", j % 5)]),
                };
            }
            p
        }).collect();
        sys::set_seed(i + 1);
        sys::must_load(&sys::image(&ps)?)?;
        let mut s = sys::Session::new()?;
        let it = items(&s)?;
        let (k, all) = (it.options.len(), it.options.len() + it.tags.len());
        if all != n {
            return Err(format!("{all} items are listed instead of {n}"));
        }
        let q: String = (0..60).map(token).collect();
        let who = |j: usize| {
            // the product that lacks the item: every other product has it
            (0..n).find(|i| if j < k { !ps[*i].options.iter().any(|(c, v)| *c == it.options[j].0 && v.contains(&it.options[j].1)) } else { !ps[*i].tags.contains(&it.tags[j - k].get_name()) })
        };
        let base: BTreeSet<String> = s.ids(&q, None, &sys::no_filter(), 2 * n + 10)?.ok_or("no result")?.into_iter().collect();
        let flip = |s: &mut sys::Session, j: usize| guarded(|| if j < k { s.cats.toggle(&it.options[j].2) } else { s.tags.toggle(&it.tags[j - k]) });
        for j in 0..n {
            flip(&mut s, j)?;
        }
        let mut open: Option<usize> = None;
        for step in 0..=n {
            let got: BTreeSet<String> = s.ids(&q, None, &sys::no_filter(), 2 * n + 10)?.ok_or("no result")?.into_iter().collect();
            let mut want: BTreeSet<String> = [ps[n].id.clone()].into();
            if let Some(j) = open {
                want.insert(ps[who(j).ok_or("an item every product has is listed")?].id.clone());
            }
            let want: BTreeSet<String> = want.intersection(&base).cloned().collect();
            if got != want {
                return Err(format!("with {} of {n} items active the search returns {got:?} instead of {want:?}", n - usize::from(open.is_some())));
            }
            cx.state(&(n, open));
            cx.outcome(&got.len());
            cx.step(1);
            if let Some(j) = open {
                flip(&mut s, j)?;
            }
            open = (step < n).then_some(step);
            if let Some(j) = open {
                flip(&mut s, j)?;
            }
        }
        cx.trace();
        Ok(())
    }));
    let sizes: Vec<usize> = tier.pick(vec![2, 5, 10, 40, 129, 300], (2..=40).chain([100, 128, 129, 255, 256, 257, 300]).collect());
    let r = [sizes.len() as u64, 32];
    let s2 = sizes.clone();
    f.push(Family::new("structured", product(&r), 1, move |i| { let d = digits(i, &r); format!("structured catalogue of {}, every 32nd subset of the items from {}", s2[d[0]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::structured(sizes[d[0]]);
        sys::set_seed(i + 1);
        sys::must_load(&sys::image(&ps)?)?;
        let plain = sys::Session::new()?;
        let it = items(&plain)?;
        let n = it.options.len() + it.tags.len();
        let m = Ref::of(&ps, 5);
        let q = vec![(0..sizes[d[0]].min(30)).map(token).collect::<String>(), "red circle".into()];
        let mut active = d[1];
        while active < 1 << n {
            if active.count_ones() <= tier.pick(3, 12) {
                let mut s = sys::Session::new()?;
                select(&mut s, &it, active, active % 4)?;
                check(&ps, &m, &s, &plain, &it, active, &q, cx)?;
            }
            active += 32;
        }
        Ok(())
    }));
    // histories of toggles with a search after every step
    let depth = tier.pick(4, 6);
    let total: u64 = 6u64.pow(depth);
    let ps = Rc::new(lattice());
    f.push(Family::new("histories", total, total.div_ceil(16), move |i| format!("toggle sequence {:?}, searched after every toggle", digits(i, &vec![6u64; depth as usize])), move |i, cx| {
        thread_local!(static READY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
        if !READY.with(std::cell::Cell::get) {
            sys::must_load(&sys::image(&ps)?)?;
            READY.with(|r| r.set(true));
        }
        let mut s = sys::Session::new()?;
        let it = items(&s)?;
        let all: String = (0..64).map(token).collect();
        let mut active = 0usize;
        for t in digits(i, &vec![6u64; depth as usize]) {
            guarded(|| if t < 4 { s.cats.toggle(&it.options[t].2) } else { s.tags.toggle(&it.tags[t - 4]) })?;
            active ^= 1 << t;
            let got: BTreeSet<String> = s.ids(&all, None, &sys::no_filter(), 200)?.ok_or("no result")?.into_iter().collect();
            let want: BTreeSet<String> = ps.iter().filter(|p| member(p, &it, active)).map(|p| p.id.clone()).collect();
            if got != want {
                return Err(format!("with items {active:06b} active {} products are returned instead of {}; differing: {:?}", got.len(), want.len(), got.symmetric_difference(&want).take(5).collect::<Vec<_>>()));
            }
            cx.state(&(active, t));
            cx.outcome(&got.len());
            cx.step(2);
        }
        cx.trace();
        Ok(())
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C08",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["the handlers were obtained from the index that is searched (a handler of an earlier image numbers products of that image)", "product ids are distinct"],
        bounds: |t| vec![
            "64 products realising every membership combination of 4 options (one value name in two categories) and 2 tags x all 64 active subsets x 4 ways of toggling x 12 filter sets (of up to 17 filters) x 3 orders x 4 queries".into(),
            t.pick("7 to 257 items, all active and all but one, for every one", "1 to 1 000 items, all active and all but one, for every one").into(),
            t.pick("88 000 products, eight active subsets of 5 items", "17 000 to 180 000 products, eight active subsets of 5 items").into(),
            t.pick("structured catalogues of 2..300: all subsets of up to 3 of 10 items", "structured catalogues of 2..300: all subsets of the items").into(),
            t.pick("all toggle histories of length 4 over 6 items", "all toggle histories of length 6 over 6 items").into(),
        ],
    })
}
