use std::collections::BTreeSet;
use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};
use wasm_bindgen::JsValue;

const PRICES: &[&str] = &["-2.5", "-1", "-0", "0", "0.1", "1", "1.00000012", "2", "3", "16777216", "16777218", "1e20", "1e39", "-inf"];
const IMAGES: &[&str] = &["u1", "u2", "U1", "1", "true", "undefined"];

fn catalogue() -> Vec<P> {
    let mut ps = Vec::new();
    for (i, p) in PRICES.iter().enumerate() {
        let j = ps.len();
        ps.push(P::new(&format!("id{j}")).desc(&token(j)).price(p).media(IMAGES[i % IMAGES.len()]));
    }
    for k in 0..4 {
        // without an image
        let j = ps.len();
        ps.push(P::new(&format!("id{j}")).desc(&token(j)).price(PRICES[k * 2 + 1]));
    }
    for (k, u) in IMAGES.iter().enumerate() {
        let j = ps.len();
        ps.push(P::new(&format!("id{j}")).desc(&token(j)).price(PRICES[(k * 5 + 2) % PRICES.len()]).media(u).media("u2"));
    }
    ps
}

/// A JavaScript value as the filter menu writes it.
#[derive(Clone, Debug, PartialEq)]
enum V {
    Missing,
    Undefined,
    Null,
    Num(f64),
    Str(&'static str),
    Bool(bool),
    Obj,
    Arr,
}
impl V {
    fn js(&self) -> JsValue {
        match self {
            V::Missing | V::Undefined => JsValue::UNDEFINED,
            V::Null => JsValue::NULL,
            V::Num(n) => JsValue::from(*n),
            V::Str(s) => JsValue::from(*s),
            V::Bool(b) => JsValue::from(*b),
            V::Obj => js_sys::Object::new().into(),
            V::Arr => js_sys::Array::new().into(),
        }
    }
    fn num(&self) -> Option<f64> {
        match self {
            V::Num(n) => Some(*n),
            _ => None,
        }
    }
}
fn bounds_menu() -> Vec<V> {
    let p = |s: &str| V::Num(f64::from(s.parse::<f32>().unwrap_or(0.0)));
    vec![V::Missing, V::Undefined, V::Null, V::Str("1"), V::Str(""), V::Bool(true), V::Obj, V::Num(f64::NAN), V::Num(f64::INFINITY), V::Num(f64::NEG_INFINITY), p("-2.5"), p("-1"), V::Num(-0.0), V::Num(0.0), p("0.1"), V::Num(0.1), V::Num(1.0), p("1.00000012"), V::Num(1.0 + 1e-9), V::Num(1.0 - 1e-9), V::Num(2.0), V::Num(2.5), V::Num(16777216.0), V::Num(16777217.0), p("1e20"), V::Num(1e21), V::Num(-1e300), V::Num(5e-324)]
}
fn exact_menu() -> Vec<V> {
    let mut m: Vec<V> = bounds_menu().into_iter().filter(|v| !matches!(v, V::Missing | V::Undefined)).collect();
    m.extend([V::Arr, V::Bool(false), V::Str("u1"), V::Str("u2"), V::Str("U1"), V::Str("u"), V::Str("true"), V::Str("undefined"), V::Str("0.1"), V::Str("image_url"), V::Num(3.0), V::Num(-1.0), V::Num(16777218.0)]);
    m
}
const FEATURES: &[&str] = &["price", "image_url", "nothing", "", "Price"];

#[derive(Clone, Debug)]
enum Filter {
    Range(V, V),
    Exact(V),
    /// the feature's entry is no object
    Bad(V),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Yes,
    No,
    Either,
}

/// None: no result object at all.
fn accepts(p: &P, feature: &str, f: &Filter) -> Option<Verdict> {
    let yes = |b: bool| Some(if b { Verdict::Yes } else { Verdict::No });
    match f {
        Filter::Bad(_) => None,
        Filter::Range(a, b) => {
            if a.num().is_none() && b.num().is_none() {
                return yes(true);
            }
            if feature != "price" {
                return yes(false);
            }
            let x = f64::from(p.price_f32());
            yes(a.num().map_or(true, |a| a <= x) && b.num().map_or(true, |b| x <= b))
        }
        Filter::Exact(v) => match (feature, v) {
            ("price", V::Num(n)) => yes(*n == f64::from(p.price_f32())),
            ("image_url", V::Str(s)) => {
                if p.media.is_empty() && s.is_empty() {
                    // a product without an image may report an empty address or none
                    Some(Verdict::Either)
                } else {
                    yes(p.media.first().map(String::as_str) == Some(*s))
                }
            }
            _ => yes(false),
        },
    }
}

fn entry(f: &Filter, spelled: bool) -> JsValue {
    let o = js_sys::Object::new();
    let set = |k: &str, v: &V| {
        if *v != V::Missing {
            let _ = js_sys::Reflect::set(&o, &k.into(), &v.js());
        }
    };
    match f {
        Filter::Bad(v) => return v.js(),
        Filter::Range(a, b) => {
            // written in either order, with members that mean nothing
            if spelled {
                set("to", b);
                set("unit", &V::Str("DKK"));
                set("from", a);
            } else {
                set("from", a);
                set("to", b);
            }
        }
        Filter::Exact(v) => {
            if spelled {
                set("from", &V::Undefined);
                set("exact", v);
                set("to", &V::Undefined);
            } else {
                set("exact", v);
            }
        }
    }
    o.into()
}

struct World {
    ps: Vec<P>,
    s: sys::Session,
    all: String,
    base: BTreeSet<String>,
}
thread_local!(static WORLD: std::cell::OnceCell<World> = const { std::cell::OnceCell::new() });
fn world(ps: Vec<P>) -> Result<World, String> {
    sys::set_seed(3);
    sys::must_load(&sys::image(&ps)?)?;
    let s = sys::Session::new()?;
    let all: String = (0..ps.len()).map(token).collect();
    let base: BTreeSet<String> = s.ids(&all, None, &sys::no_filter(), 200)?.ok_or("no result")?.into_iter().collect();
    if base.len() != ps.len() {
        return Err(format!("only {} of {} products are found without a filter", base.len(), ps.len()));
    }
    Ok(World { ps, s, all, base })
}
fn with_world<T>(f: impl FnOnce(&World) -> Result<T, String>) -> Result<T, String> {
    WORLD.with(|w| {
        if w.get().is_none() {
            let _ = w.set(world(catalogue())?);
        }
        f(w.get().ok_or("no world")?)
    })
}

fn judge(w: &World, fs: &[(&str, Filter)], spelled: bool, cx: &mut Cx) -> Result<(), String> {
    let o = js_sys::Object::new();
    for (k, f) in fs {
        let _ = js_sys::Reflect::set(&o, &(*k).into(), &entry(f, spelled));
    }
    let got = w.s.ids(&w.all, None, &o, 200).map_err(|e| format!("filters {fs:?}: {e}"))?;
    cx.step(1);
    cx.trace();
    cx.outcome(&got);
    let want: Option<Vec<Verdict>> = w.ps.iter().map(|p| fs.iter().try_fold(Verdict::Yes, |acc, (k, f)| Some(match (acc, accepts(p, k, f)?) { (Verdict::No, _) | (_, Verdict::No) => Verdict::No, (Verdict::Either, _) | (_, Verdict::Either) => Verdict::Either, _ => Verdict::Yes }))).collect();
    match (got, want) {
        (None, None) => Ok(()),
        (Some(v), None) => Err(format!("filters {fs:?}: a filter that is no object gives a result of {} products", v.len())),
        (None, Some(_)) => Err(format!("filters {fs:?} give no result object")),
        (Some(v), Some(want)) => {
            let set: BTreeSet<&String> = v.iter().collect();
            if set.len() != v.len() {
                return Err(format!("filters {fs:?}: a product is returned twice"));
            }
            for (p, verdict) in w.ps.iter().zip(want) {
                let has = set.contains(&p.id);
                if (verdict == Verdict::Yes && !has) || (verdict == Verdict::No && has) {
                    return Err(format!("filters {fs:?}: the product with price {} and images {:?} is {}", p.price, p.media, if has { "accepted" } else { "left out" }));
                }
            }
            if !v.iter().all(|id| w.base.contains(id)) {
                return Err(format!("filters {fs:?}: an unknown product is returned"));
            }
            cx.state(&v);
            Ok(())
        }
    }
}

/// The k-th name of a feature nothing has.
fn name(k: usize) -> &'static str {
    thread_local!(static NAMES: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(Vec::new()) });
    NAMES.with(|n| {
        let mut n = n.borrow_mut();
        while n.len() <= k {
            let s = format!("feature {}", n.len());
            n.push(Box::leak(s.into_boxed_str()));
        }
        n[k]
    })
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let b = Rc::new(bounds_menu());
    let e = Rc::new(exact_menu());
    let (bn, en, fnum) = (b.len() as u64, e.len() as u64, FEATURES.len() as u64);
    let r = [fnum, bn, bn, 2];
    let (b1, b2) = (b.clone(), b.clone());
    f.push(Family::new("range", product(&r), 1000, move |i| { let d = digits(i, &r); format!("{:?} from {:?} to {:?} written way {}", FEATURES[d[0]], b1[d[1]], b1[d[2]], d[3]) }, move |i, cx| {
        let d = digits(i, &r);
        with_world(|w| judge(w, &[(FEATURES[d[0]], Filter::Range(b2[d[1]].clone(), b2[d[2]].clone()))], d[3] == 1, cx))
    }));
    let r = [fnum, en, 2];
    let (e1, e2) = (e.clone(), e.clone());
    f.push(Family::new("exact", product(&r), 100, move |i| { let d = digits(i, &r); format!("{:?} exact {:?} written way {}", FEATURES[d[0]], e1[d[1]], d[2]) }, move |i, cx| {
        let d = digits(i, &r);
        with_world(|w| judge(w, &[(FEATURES[d[0]], Filter::Exact(e2[d[1]].clone()))], d[2] == 1, cx))
    }));
    // entries that are no objects
    let bad = [V::Undefined, V::Null, V::Num(1.0), V::Str("x"), V::Str(""), V::Bool(true), V::Bool(false), V::Num(f64::NAN)];
    let bad = Rc::new(bad.to_vec());
    let r = [fnum, bad.len() as u64, 3];
    let (b1, b2) = (bad.clone(), bad);
    f.push(Family::new("no-object", product(&r), 200, move |i| { let d = digits(i, &r); format!("{:?}: {:?} (with other filters: {})", FEATURES[d[0]], b1[d[1]], d[2]) }, move |i, cx| {
        let d = digits(i, &r);
        let bad = (FEATURES[d[0]], Filter::Bad(b2[d[1]].clone()));
        let good = ("zz", Filter::Range(V::Missing, V::Missing));
        let fs = match d[2] { 0 => vec![bad], 1 => vec![good, bad], _ => vec![bad, good] };
        with_world(|w| judge(w, &fs, false, cx))
    }));
    // pairs of filters on different features
    let menu: Vec<(&'static str, Filter)> = {
        let mut m = Vec::new();
        let vals = tier.pick(vec![V::Missing, V::Num(0.0), V::Num(1.0), V::Num(2.0), V::Str("1"), V::Num(f64::INFINITY)], b.to_vec());
        for a in &vals {
            for z in &vals {
                m.push(("price", Filter::Range(a.clone(), z.clone())));
            }
        }
        for v in e.iter() {
            m.push(("price", Filter::Exact(v.clone())));
        }
        m
    };
    let other: Vec<(&'static str, Filter)> = {
        let mut m: Vec<(&'static str, Filter)> = e.iter().map(|v| ("image_url", Filter::Exact(v.clone()))).collect();
        m.push(("image_url", Filter::Range(V::Missing, V::Missing)));
        m.push(("image_url", Filter::Range(V::Num(0.0), V::Missing)));
        m.push(("image_url", Filter::Range(V::Missing, V::Num(0.0))));
        m.push(("nothing", Filter::Range(V::Missing, V::Str("x"))));
        m.push(("nothing", Filter::Range(V::Num(1.0), V::Num(2.0))));
        m.push(("nothing", Filter::Exact(V::Null)));
        m
    };
    let r = [menu.len() as u64, other.len() as u64, 2];
    let (menu, other) = (Rc::new(menu), Rc::new(other));
    let (m1, o1) = (menu.clone(), other.clone());
    f.push(Family::new("pairs", product(&r), 2000, move |i| { let d = digits(i, &r); format!("{:?} and {:?}, order {}", m1[d[0]], o1[d[1]], d[2]) }, move |i, cx| {
        let d = digits(i, &r);
        let (a, b) = (menu[d[0]].clone(), other[d[1]].clone());
        let fs = if d[2] == 0 { vec![a, b] } else { vec![b, a] };
        with_world(|w| judge(w, &fs, d[2] == 1, cx))
    }));
    // three filters
    let few: Vec<Filter> = vec![Filter::Range(V::Num(0.0), V::Num(2.0)), Filter::Range(V::Missing, V::Null), Filter::Exact(V::Str("u1")), Filter::Exact(V::Num(1.0)), Filter::Bad(V::Null), Filter::Range(V::Num(1.0), V::Missing)];
    let r = [6u64, 6, 6, 6];
    let few2 = few.clone();
    let perms: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let three = Rc::new(move |i: u64| {
        let d = digits(i, &r);
        let fs = [("price", few2[d[0]].clone()), ("image_url", few2[d[1]].clone()), ("nothing", few2[d[2]].clone())];
        perms[d[3]].iter().map(|k| fs[*k].clone()).collect::<Vec<_>>()
    });
    // a filter among many that accept everything
    let counts: Vec<usize> = tier.pick(vec![3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 256, 300], (1..=140).chain([200, 255, 256, 257, 300, 1_000]).collect());
    let few3 = few.clone();
    let r3 = [counts.len() as u64, few.len() as u64, 5];
    let among = Rc::new(move |i: u64| {
        let d = digits(i, &r3);
        let n = counts[d[0]];
        let place = [0, 1, n / 2, n - 1, n][d[2]];
        let mut fs: Vec<(&'static str, Filter)> = (0..n).map(|k| (name(k), Filter::Range(V::Missing, V::Missing))).collect();
        fs.insert(place, ("price", few3[d[1]].clone()));
        fs
    });
    let a2 = among.clone();
    f.push(Family::new("among-many", product(&r3), 30, move |i| { let fs = among(i); format!("{} filters, number {:?} is {:?}", fs.len(), fs.iter().position(|f| f.0 == "price"), fs.iter().find(|f| f.0 == "price")) }, move |i, cx| with_world(|w| judge(w, &a2(i), false, cx).map_err(vharness::shapes::cut))));
    let t2 = three.clone();
    f.push(Family::new("triples", product(&r), 200, move |i| format!("{:?}", three(i)), move |i, cx| with_world(|w| judge(w, &t2(i), false, cx))));
    // addresses as shops have them, and texts close to them
    let odd = shapes::odd();
    f.push(Family::new("odd-texts", odd.len() as u64, 8, move |i| format!("images {:?} and close to it; exact values and features of {} texts", odd[i as usize], odd.len()), move |i, cx| {
        let s = odd[i as usize];
        let near = [s.to_string(), format!("{s}x"), format!("x{s}"), s.to_uppercase(), s.to_lowercase(), s.trim().to_string(), format!(" {s}"), format!("{s} "), s.split('?').next().unwrap_or("").to_string(), s.trim_start_matches("https:").to_string(), format!("https:{s}")];
        let mut ps: Vec<P> = near.iter().enumerate().map(|(j, u)| P::new(&format!("id{j}")).desc(&token(j)).media(u).price(&format!("{j}"))).collect();
        ps.push(P::new("none").desc(&token(near.len())));
        let w = world(ps)?;
        for t in odd {
            judge(&w, &[("image_url", Filter::Exact(V::Str(t)))], false, cx)?;
            judge(&w, &[("image_url", Filter::Exact(V::Str(t))), ("price", Filter::Range(V::Num(1.0), V::Missing))], true, cx)?;
            judge(&w, &[(t, Filter::Exact(V::Str(s)))], false, cx)?;
        }
        judge(&w, &[(s, Filter::Range(V::Num(1.0), V::Missing))], false, cx)
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C19",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["filter objects are plain objects (no getters or prototypes with own from/to/exact)", "an entry with both a bound and exact is not specified and not tried", "a product without an image may report an empty or an absent address"],
        bounds: |t| vec![
            format!("all pairs of {} bounds and all of {} exact values for 5 features, written in two ways; entries that are no objects", bounds_menu().len(), exact_menu().len()),
            t.pick("all pairs of 75 price filters and 45 others in both orders", "all pairs of 800 price filters and 45 others in both orders").into(),
            format!("{} texts as shops have them as image addresses (and 10 close to each), as exact values and as features", shapes::odd().len()),
            "all triples over 6 filters in all 6 orders".into(),
            t.pick("each of 6 filters in 5 places among 3 to 300 others", "each of 6 filters in 5 places among 1 to 1 000 others").into(),
        ],
    })
}
