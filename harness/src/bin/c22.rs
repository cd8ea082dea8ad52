//! C22: equality, order and numeric ids of products and indexes.
use std::rc::Rc;

use indexer_lib as ix;
use ix::classic_indexes::ClassicIndexes;
use ix::data::{optimize, Product, ProductContainer};
use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

fn container(vendors: &[&str]) -> Result<&'static ProductContainer<'static>, String> {
    let ps: Vec<P> = vendors.iter().enumerate().map(|(i, v)| P::new(&format!("v{i}")).vendor(v)).collect();
    let raw = sys::raw(&ps)?;
    guarded(|| optimize(raw, sys::super_alloc()).0)
}

/// The number at the end of an id, by definition, unless it is too large for a 64-bit number.
fn number(id: &str) -> Option<u64> {
    let end: Vec<char> = id.chars().rev().take_while(|c| ('0'..='9').contains(c)).collect();
    end.into_iter().rev().try_fold(0u64, |n, c| n.checked_mul(10)?.checked_add(u64::from(u32::from(c) - u32::from('0'))))
}

fn numbered(c: &'static ProductContainer<'static>, id: &str, cx: &mut Cx) -> Result<(), String> {
    let p = Product { description: "12".into(), title: "34".into(), vendor: c.products[0].vendor, id: id.to_string(), serialization_id: 7 };
    let (want, got) = (number(id), guarded(|| p.get_id()).map_err(|e| format!("the number of {id:?}: {e}"))?);
    if want.map_or(false, |want| want != got) {
        return Err(format!("the number of {id:?} is {got} instead of {want:?}"));
    }
    cx.outcome(&want.map(|n| n.min(1000)));
    cx.step(1);
    cx.trace();
    Ok(())
}

/// The parts of a product that equality looks at.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Parts {
    desc: String,
    title: &'static str,
    vendor: usize,
    id: &'static str,
    at: usize,
}

fn should_be_equal(a: &Parts, b: &Parts) -> bool {
    let (x, y) = (a.desc.as_bytes(), b.desc.as_bytes());
    let n = x.len().min(y.len());
    (n > 0 || x.len() == y.len()) && x[..n] == y[..n] && a.title == b.title && a.vendor == b.vendor && a.id == b.id && a.at == b.at
}

struct Vendors([&'static ProductContainer<'static>; 2]);

impl Vendors {
    /// 0 and 1: the same name and number in two catalogues; 2: another name; 3: the first name with another number.
    fn new() -> Result<Vendors, String> {
        Ok(Vendors([container(&["one", "two"])?, container(&["two", "one"])?]))
    }
    fn make(&self, p: &Parts) -> Product<'static> {
        let v = [(0, 0), (0, 1), (1, 0), (1, 1)][p.vendor];
        Product { description: p.desc.clone(), title: p.title.to_string(), vendor: self.0[v.0].products[v.1].vendor, id: p.id.to_string(), serialization_id: p.at }
    }
}

fn compare(v: &Vendors, a: &Parts, b: &Parts, cx: &mut Cx) -> Result<(), String> {
    let (x, y) = (v.make(a), v.make(b));
    let want = should_be_equal(a, b);
    for (p, q, l, r) in [(&x, &y, a, b), (&y, &x, b, a)] {
        let (eq, ne) = guarded(|| (p == q, p != q))?;
        if eq != want || ne == want {
            return Err(format!("{l:?} and {r:?} are {}equal", if eq { "" } else { "not " }));
        }
        let order = guarded(|| (p.cmp(q), p.partial_cmp(q), p < q))?;
        let by_place = l.at.cmp(&r.at);
        if order != (by_place, Some(by_place), l.at < r.at) {
            return Err(format!("{l:?} and {r:?} are ordered {order:?}"));
        }
    }
    cx.outcome(&(want, a == b));
    cx.step(2);
    cx.trace();
    Ok(())
}

fn descriptions(long: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..long {
        let to = out.len();
        for i in from..to {
            for c in ['a', 'é', ' '] {
                let s = format!("{}{c}", out[i]);
                out.push(s);
            }
        }
        from = to;
    }
    for n in [99, 100, 101, 255, 256, 300] {
        out.push("word ".repeat(n / 5) + &"x".repeat(n % 5));
        out.push("word ".repeat(n / 5) + &"y".repeat(n % 5) + "z");
    }
    out
}

type Pair = (sys::Gi<5>, ClassicIndexes<'static>);

fn same(a: &Pair, b: &Pair) -> Result<bool, String> {
    guarded(|| a.0 == b.0 && a.1 == b.1)
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    // every short id
    let letters: &'static [char] = &['0', '1', '9', 'a', '/', '-', '٣', '\u{1F47D}'];
    let (n, len) = (letters.len() as u64, tier.pick(5u32, 7));
    let total: u64 = (0..=len).map(|l| n.pow(l)).sum();
    let text = move |mut i: u64| {
        let mut l = 0;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        digits(i, &vec![n; l as usize]).into_iter().map(|d| letters[d]).collect::<String>()
    };
    thread_local!(static C: &'static ProductContainer<'static> = container(&["one"]).unwrap_or_else(|e| panic!("{e}")));
    f.push(Family::new("ids", total, 20_000, move |i| format!("{:?}", text(i)), move |i, cx| {
        cx.state(&i);
        C.with(|c| numbered(c, &text(i), cx))
    }));
    // numbers of every length behind every beginning
    let heads: &'static [&'static str] = &["", "gid://shopify/Product/", "x", "9x", "-", "+", " ", "1 ", "1.", "٣", "é", "０"];
    let mut numbers: Vec<String> = Vec::new();
    for k in 1..=19usize {
        for d in ['0', '1', '9', '5'] {
            numbers.push(d.to_string().repeat(k));
            numbers.push(format!("1{}", d.to_string().repeat(k - 1)));
        }
        numbers.push("1234567890123456789"[..k].to_string());
        numbers.push("9876543210987654321"[19 - k..].to_string());
    }
    for b in 0..64u32 {
        for d in [-1i128, 0, 1] {
            numbers.push(((1i128 << b) + d).to_string());
        }
    }
    // the largest, too large ones, and zeros before the number
    numbers.extend([u128::from(u64::MAX) - 1, u64::MAX.into(), u128::from(u64::MAX) + 1, u128::MAX].map(|n| n.to_string()));
    for k in [20usize, 21, 22, 39, 40, 64, 255, 256, 257, 1000] {
        numbers.extend(["0", "1", "9"].map(|d| d.repeat(k)));
        numbers.push(format!("{}123", "0".repeat(k - 3)));
        numbers.push(format!("{}18446744073709551615", "0".repeat(k - 20)));
    }
    let count = numbers.len() as u64;
    let n2 = Rc::new(numbers);
    let n3 = n2.clone();
    let r = [count, heads.len() as u64];
    f.push(Family::new("numbers", product(&r), 500, move |i| { let d = digits(i, &r); format!("{:?}", heads[d[1]].to_string() + &n2[d[0]]) }, move |i, cx| {
        let d = digits(i, &r);
        cx.state(&i);
        C.with(|c| {
            numbered(c, &(heads[d[1]].to_string() + &n3[d[0]]), cx)?;
            numbered(c, &(heads[d[1]].to_string() + &n3[d[0]] + "x"), cx)
        })
    }));
    // all pairs of products
    thread_local!(static V: Vendors = Vendors::new().unwrap_or_else(|e| panic!("{e}")));
    let descs = Rc::new(descriptions(tier.pick(3, 4)));
    let d2 = descs.clone();
    let titles: &'static [&'static str] = &["t", "T", "t ", ""];
    let ids: &'static [&'static str] = &["1", "gid/1", "2"];
    let places: &'static [usize] = &[0, 1, 256];
    let k = descs.len() as u64;
    let r = [k, k];
    f.push(Family::new("pairs", product(&r), 200, move |i| { let d = digits(i, &r); format!("descriptions {:?} and {:?}, every title, vendor, id and place", descs[d[0]], descs[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        cx.state(&i);
        V.with(|v| {
            for j in 0..4 * 4 * 3 * 3 {
                let e = digits(j, &[4, 4, 3, 3]);
                let a = Parts { desc: d2[d[0]].clone(), title: titles[0], vendor: 0, id: ids[0], at: places[0] };
                let b = Parts { desc: d2[d[1]].clone(), title: titles[e[0]], vendor: e[1], id: ids[e[2]], at: places[e[3]] };
                // vendors 0 and 3 have the same name, 0 and 2 the same number
                compare(v, &a, &b, cx)?;
            }
            Ok(())
        })
    }));
    let places: &'static [usize] = &[0, 1, 2, 127, 128, 255, 256, 65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX];
    let r = [places.len() as u64, places.len() as u64, 2];
    f.push(Family::new("places", product(&r), 100, move |i| { let d = digits(i, &r); format!("places {} and {}", places[d[0]], places[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        cx.state(&i);
        let a = Parts { desc: "b".into(), title: "b", vendor: 0, id: "9", at: places[d[0]] };
        let b = Parts { desc: ["b", "a"][d[2]].into(), title: ["b", "a"][d[2]], vendor: 0, id: ["9", "1"][d[2]], at: places[d[1]] };
        V.with(|v| compare(v, &a, &b, cx))
    }));
    // descriptions of every length at every place, against beginnings of them, changed or not
    let most = tier.pick(1100usize, 9000);
    f.push(Family::new("long-descriptions", most as u64, 40, move |i| format!("a description of {i} letters at place {i} and its beginnings"), move |i, cx| {
        let n = i as usize;
        let whole: String = (0..n).map(|k| char::from(b'a' + (k * k % 26) as u8)).collect();
        cx.state(&i);
        V.with(|v| {
            let a = Parts { desc: whole.clone(), title: "t", vendor: 1, id: "5", at: n };
            for m in [0, 1, 2, n / 2, 99, 100, 101, 127, 128, 255, 256, n.wrapping_sub(1), n].into_iter().filter(|m| *m <= n) {
                compare(v, &a, &Parts { desc: whole[..m].to_string(), ..a.clone() }, cx)?;
                compare(v, &a, &Parts { desc: whole[..m].to_string(), at: n + 1, ..a.clone() }, cx)?;
                for at in [0, m / 2, m.wrapping_sub(1)].into_iter().filter(|at| *at < m) {
                    let desc = format!("{}#{}", &whole[..at], &whole[at + 1..m]);
                    compare(v, &a, &Parts { desc, ..a.clone() }, cx)?;
                }
            }
            Ok(())
        })
    }));
    // indexes: equal exactly if they come from images of the same catalogue
    let m = shapes::details().len() as u64;
    let r = [m, m];
    f.push(Family::new("indexes", product(&r), 60, move |i| { let d = digits(i, &r); format!("the image {} and the image {}", shapes::details()[d[0]].0, shapes::details()[d[1]].0) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(1);
        let all = shapes::details();
        let a = sys::image(&all[d[0]].1)?;
        sys::set_seed(1);
        let b = sys::image(&all[d[1]].1)?;
        let (x, y, z) = (sys::must_decode::<5>(&a)?, sys::must_decode::<5>(&b)?, sys::must_decode::<5>(&a)?);
        if !same(&x, &x)? || !same(&x, &z)? || !same(&z, &x)? {
            return Err("two loads of the same image are not equal".into());
        }
        if d[0] != d[1] && (same(&x, &y)? || same(&y, &x)?) {
            return Err("indexes of different catalogues are equal".into());
        }
        cx.state(&(d[0], d[1]));
        cx.outcome(&(d[0] == d[1]));
        cx.step(3);
        cx.trace();
        Ok(())
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C22",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["what is reported for the end of an id that is too large for a 64-bit number is not specified"],
        bounds: |t| vec![
            t.pick("every id of up to 5 characters over digits, letters, signs and digits of other scripts", "every id of up to 7 characters over digits, letters, signs and digits of other scripts").into(),
            "numbers of 1 to 1000 digits, around the largest and around every power of two behind 12 beginnings".into(),
            t.pick("all pairs of descriptions of up to 3 characters and around 100 and 256 bytes x every combination of equal/different title, vendor name, vendor number, id, place", "all pairs of descriptions of up to 4 characters and around 100 and 256 bytes x every combination of equal/different title, vendor name, vendor number, id, place").into(),
            t.pick("descriptions of every length up to 1100 at that place against their beginnings, with one letter changed or none", "descriptions of every length up to 9000 at that place against their beginnings, with one letter changed or none").into(),
            "all pairs of 30 images that differ in one detail; all pairs of 13 places".into(),
        ],
    })
}
