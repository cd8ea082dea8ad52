use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

/// Categories with their options in order of first use.
fn want_categories(ps: &[P]) -> Vec<(String, Vec<String>)> {
    let mut out: Vec<(String, Vec<String>)> = Vec::new();
    for p in ps {
        for (name, values) in &p.options {
            let at = match out.iter().position(|c| c.0 == *name) {
                Some(k) => k,
                None => {
                    out.push((name.clone(), Vec::new()));
                    out.len() - 1
                }
            };
            for v in values {
                if !out[at].1.contains(v) {
                    out[at].1.push(v.clone());
                }
            }
        }
    }
    out
}

/// Which of n items to restrict a search to: all of few; of many some regularly spaced ones and those
/// around the powers of two.
fn chosen(n: usize) -> Vec<usize> {
    if n <= 1500 {
        return (0..n).collect();
    }
    let mut v: BTreeSet<usize> = (0..n).step_by(n / 40).collect();
    for b in [127, 255, 256, 16_383, 16_384, 32_768, 65_535, 65_536, n - 1] {
        v.extend([b, b + 1].into_iter().filter(|x| *x < n));
    }
    v.into_iter().collect()
}

fn check(ps: &[P], per_item: bool, cx: &mut Cx) -> Result<(), String> {
    check_with(ps, per_item, &(0..ps.len()).map(token).collect::<String>(), cx)
}

/// `all`: a query that finds every product.
fn check_with(ps: &[P], per_item: bool, all: &str, cx: &mut Cx) -> Result<(), String> {
    sys::must_load(&sys::image(ps)?)?;
    let s = sys::Session::new()?;
    let cap = 200_000;
    let cats = sys::list_categories(&s.cats, cap)?;
    let got: Vec<(String, Vec<String>)> = cats.iter().map(|(n, o)| (n.clone(), o.iter().map(|x| x.0.clone()).collect())).collect();
    let want = want_categories(ps);
    if got != want {
        return Err(format!("the categories are {got:?} instead of {want:?}"));
    }
    let mut keys = BTreeSet::new();
    if !cats.iter().flat_map(|(_, os)| os).all(|(_, h)| keys.insert(h.keys())) {
        return Err("two options are told apart by nothing".into());
    }
    let tags = sys::list_tags(&s.tags, cap)?;
    let mut names: Vec<String> = guarded(|| tags.iter().map(|t| t.get_name()).collect())?;
    names.sort();
    let want_tags: Vec<String> = ps.iter().flat_map(|p| p.tags.iter().cloned()).collect::<BTreeSet<_>>().into_iter().collect();
    if names != want_tags {
        return Err(format!("the tags are {names:?} instead of {want_tags:?}"));
    }
    cx.state(&(&got, &names));
    cx.outcome(&(got.len(), names.len()));
    cx.step(2);
    if !per_item {
        cx.trace();
        return Ok(());
    }
    let base: BTreeSet<String> = s.ids(all, None, &sys::no_filter(), cap)?.ok_or("no result")?.into_iter().collect();
    if ps.len() >= 2 && base.len() != ps.len() {
        return Err(format!("only {} of {} products are found by their own text", base.len(), ps.len()));
    }
    let mut members: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let every: Vec<_> = cats.iter().flat_map(|(name, options)| options.iter().map(move |(value, h)| (name, value, h))).collect();
    {
        for (name, value, h) in chosen(every.len()).into_iter().map(|k| every[k]) {
            let mut one = sys::Session::new()?;
            guarded(|| one.cats.toggle(h))?;
            let got: BTreeSet<String> = one.ids(all, None, &sys::no_filter(), cap)?.ok_or("no result")?.into_iter().collect();
            let want: BTreeSet<String> = ps.iter().filter(|p| p.options.iter().any(|(n, v)| n == name && v.contains(value))).map(|p| p.id.clone()).filter(|i| base.contains(i)).collect();
            if got != want {
                return Err(format!("option {name:?}/{value:?} holds {got:?} instead of {want:?}"));
            }
            cx.step(1);
            members.insert(format!("{name}/{value}"), got);
        }
    }
    for t in chosen(tags.len()).into_iter().map(|k| &tags[k]) {
        let mut one = sys::Session::new()?;
        let name = guarded(|| { one.tags.toggle(t); t.get_name() })?;
        let got: BTreeSet<String> = one.ids(all, None, &sys::no_filter(), cap)?.ok_or("no result")?.into_iter().collect();
        let want: BTreeSet<String> = ps.iter().filter(|p| p.tags.contains(&name)).map(|p| p.id.clone()).filter(|i| base.contains(i)).collect();
        if got != want {
            return Err(format!("tag {name:?} holds {got:?} instead of {want:?}"));
        }
        cx.step(1);
        members.insert(format!("#{name}"), got);
    }
    cx.state(&members);
    cx.trace();
    Ok(())
}

fn options(k: usize, p: P) -> P {
    match k {
        0 => p,
        1 => p.opt("A", &["x"]),
        2 => p.opt("A", &["x", "y"]),
        3 => p.opt("A", &["y", "x"]),
        4 => p.opt("A", &["x"]).opt("A", &["y"]),
        5 => p.opt("A", &["x", "x"]),
        6 => p.opt("B", &["x"]),
        7 => p.opt("B", &["y"]).opt("A", &["x"]),
        8 => p.opt("A", &["x"]).opt("B", &["x", "y"]),
        9 => p.opt("A", &[]),
        10 => p.opt("", &["", "x"]),
        11 => p.opt("A", &["z"]).opt("B", &["z"]).opt("A", &["x", "z"]),
        12 => p.opt("Størrelse æ", &["Ø", "x"]),
        _ => p.opt("a", &["X"]).opt("A", &["X", "x "]),
    }
}
const OPTION_SHAPES: u64 = 14;
fn tags(k: usize, p: P) -> P {
    let l: &[&str] = [&[][..], &["t"], &["t", "t"], &["u"], &["t", "u"], &["u", "t"], &[""], &["T", "t "], &["Ærø", "t"], &["t", "u", "t", "v"]][k];
    l.iter().fold(p, |p, t| p.tag(t))
}
const TAG_SHAPES: u64 = 10;

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let many = tier.pick(vec![88_000usize], vec![180_000, 88_000, 65_537]);
    let k = many.len() as u64;
    let m2 = many.clone();
    f.push(Family::new("large", k + 4, 1, move |i| if i < k { format!("{} products", m2[i as usize]) } else { shapes::WIDE[(i - k) as usize].into() }, move |i, cx| {
        sys::set_seed(i + 1);
        if i < k {
            check_with(&shapes::many(many[i as usize]), true, "rundtkantet", cx)
        } else {
            check(&shapes::wide((i - k) as usize), true, cx)
        }
        .map_err(shapes::cut)
    }));
    f.push(Family::new("long", 1, 1, |_| shapes::WIDE[4].into(), |_, cx| check(&shapes::wide(4), true, cx).map_err(shapes::cut)));
    let mut add = |name: &'static str, radix: Vec<u64>, chunk: u64, make: fn(usize, usize, P) -> P| {
        let radix = Rc::new(radix);
        let build = move |radix: &[u64], i: u64| -> Vec<P> { digits(i, radix).iter().enumerate().map(|(j, k)| make(j, *k, P::new(&format!("id{j}")).desc(&token(j)))).collect() };
        let r2 = radix.clone();
        f.push(Family::new(name, product(&radix), chunk, move |i| brief(&build(&r2, i)), move |i, cx| {
            sys::set_seed(i * 3 + 1);
            check(&build(&radix, i), true, cx)
        }));
    };
    add("options-2", vec![OPTION_SHAPES; 2], 25, |_, k, p| options(k, p));
    add("options-3", vec![OPTION_SHAPES; 3], 350, |_, k, p| options(k, p));
    add("options-4", vec![tier.pick(7, OPTION_SHAPES); 4], 600, |_, k, p| options(if k >= 7 { k } else { [0, 1, 4, 6, 7, 8, 11][k] }, p));
    add("tags-2", vec![TAG_SHAPES; 2], 20, |_, k, p| tags(k, p));
    add("tags-3", vec![TAG_SHAPES; 3], 130, |_, k, p| tags(k, p));
    add("tags-4", vec![tier.pick(6, TAG_SHAPES); 4], 300, |_, k, p| tags(k, p));
    add("both", vec![OPTION_SHAPES * TAG_SHAPES; 2], 2500, |_, k, p| tags(k % 10, options(k / 10, p)));
    let sizes: Vec<usize> = tier.pick(vec![0, 1, 2, 3, 5, 17, 40, 127, 128, 129, 200, 255, 256, 257, 300], (0..=300).chain([400, 513]).collect());
    let s2 = sizes.clone();
    f.push(Family::new("structured", sizes.len() as u64, 1, move |i| format!("structured catalogue of {}", s2[i as usize]), move |i, cx| {
        sys::set_seed(i + 1);
        check(&shapes::structured(sizes[i as usize]), true, cx)
    }));
    let counts = [126usize, 127, 128, 129, 130, 255, 256, 257, 300];
    let r = [3u64, 9];
    f.push(Family::new("many-values", product(&r), 1, move |i| { let d = digits(i, &r); format!("{} distinct {}", counts[d[1]], ["tags", "options of one category", "categories"][d[0]]) }, move |i, cx| {
        let d = digits(i, &r);
        let n = counts[d[1]];
        let ps: Vec<P> = (0..n).map(|j| {
            let p = P::new(&format!("p{j}")).desc(&token(j));
            match d[0] {
                0 => p.tag(&format!("tag {j}")).tag(&format!("tag {}", (j + 1) % n)),
                1 => p.opt("c", &[&format!("v{j}"), &format!("v{}", j / 2)]),
                _ => p.opt(&format!("cat {j}"), &["v"]).opt(&format!("cat {}", j / 2), &["v", "w"]),
            }
        }).collect();
        sys::set_seed(i + 1);
        check(&ps, true, cx)
    }));
    // categories of different sizes in every order, options held by different numbers of products
    let counts = [1usize, 2, 3, 8, 9, 10, 16, 17, 33, 65, 129];
    let r = [11u64, 11, 11, 3];
    f.push(Family::new("category-sizes", product(&r), 450, move |i| { let d = digits(i, &r); format!("three categories of {}, {} and {} options, kind {}", counts[d[0]], counts[d[1]], counts[d[2]], d[3]) }, move |i, cx| {
        let d = digits(i, &r);
        let mut ps: Vec<P> = (0..8).map(|j| P::new(&format!("p{j}")).desc(&token(j))).collect();
        for (c, k) in d[..3].iter().enumerate() {
            for v in 0..counts[*k] {
                for (j, p) in ps.iter_mut().enumerate() {
                    let has = match d[3] { 0 => j == v % 8, 1 => j <= (v * 5 + c) % 8, _ => j >= (v * 3 + c) % 8 };
                    if has {
                        *p = std::mem::take(p).opt(["b", "c", "a"][c], &[&format!("v{}", (v * 7 + c) % 130)]);
                    }
                }
            }
        }
        sys::set_seed(i + 1);
        check(&ps, i % 16 == 0, cx)
    }));
    // texts that shops really have, every pair of them in every field
    let k = shapes::odd().len() as u64;
    let r = [k, k];
    f.push(Family::new("odd-texts", product(&r), 800, move |i| { let d = digits(i, &r); format!("texts {:?} and {:?} in every field", shapes::odd()[d[0]], shapes::odd()[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::odd_catalogue(shapes::odd()[d[0]], shapes::odd()[d[1]]);
        sys::set_seed(i + 1);
        check(&ps, true, cx)
    }));
    // two of these texts as names of two categories with the same options, and as two options and tags
    let r = [k, k, 3];
    f.push(Family::new("odd-names", product(&r), 2500, move |i| { let d = digits(i, &r); format!("{:?} and {:?} as {}", shapes::odd()[d[0]], shapes::odd()[d[1]], ["categories with the same options", "categories with the same option of two products", "options and tags"][d[2]]) }, move |i, cx| {
        let d = digits(i, &r);
        let (a, b) = (shapes::odd()[d[0]], shapes::odd()[d[1]]);
        let p = |j: usize| P::new(&format!("p{j}")).desc(&token(j));
        let ps = match d[2] {
            0 => vec![p(0).opt(a, &["x", "y"]), p(1).opt(b, &["x", "y"]), p(2)],
            1 => vec![p(0).opt(a, &["x"]).opt(b, &["x"]), p(1).opt(b, &["x"]), p(2)],
            _ => vec![p(0).opt("c", &[a]).tag(a), p(1).opt("c", &[b]).tag(b), p(2)],
        };
        sys::set_seed(i + 1);
        check(&ps, true, cx)
    }));
    // names that differ in their first, middle or last character only, or in their length
    let lens = [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 16_384, 65_536];
    let r = [lens.len() as u64, 4, 3];
    f.push(Family::new("near-names", product(&r), 20, move |i| { let d = digits(i, &r); format!("{} of {} characters that differ {}", ["tags", "options", "categories with the same options"][d[2]], lens[d[0]], ["in the first character", "in the middle", "in the last character", "in the length"][d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let len = lens[d[0]];
        let name = |k: usize| -> String {
            let at = [0, len / 2, len - 1, usize::MAX][d[1]];
            let mut s: String = (0..len).map(|j| if j == at { ['x', 'y', 'X', 'é'][k] } else { ['a', 'æ', 'b'][j % 3] }).collect();
            if d[1] == 3 {
                s.extend(["", " ", "b", "bb"][k].chars());
            }
            s
        };
        let ps: Vec<P> = (0..5).map(|j| {
            let mut p = P::new(&format!("p{j}")).desc(&token(j));
            for k in (0..4).filter(|k| j == *k || (j + k) % 3 == 0) {
                p = match d[2] {
                    0 => p.tag(&name(k)),
                    1 => p.opt("c", &[&name(k)]),
                    _ => p.opt(&name(k), &["v", ["w", "u"][k % 2]]),
                };
            }
            p
        }).collect();
        sys::set_seed(i + 1);
        check(&ps, true, cx).map_err(shapes::cut)
    }));
    f.push(Family::new("hash-seeds", tier.pick(100, 2000), 50, |i| format!("hash seed {i}, structured catalogue of 12"), |i, cx| {
        sys::set_seed(5000 + i);
        check(&shapes::structured(12), true, cx)
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C10",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["membership is observed through searches restricted to one option or tag", "product ids are distinct"],
        bounds: |t| vec![
            format!("all assignments of {OPTION_SHAPES} option lists to 2 and 3 products{}, of {TAG_SHAPES} tag lists to 2 and 3 (4: a subset), all pairs of both", t.pick(" (4: 7 lists)", " and 4")),
            t.pick("structured catalogues of 0..300", "structured catalogues of every size 0..300").into(),
            t.pick("88 000 products; 66 000 tags, 66 560 options, 17 000 categories, names of 70 000 bytes (a sample of them, with those around powers of two, restricts a search)", "65 537 to 180 000 products; 66 000 tags, 66 560 options, 17 000 categories, names of 70 000 bytes (a sample of them, with those around powers of two, restricts a search)").into(),
            format!("all pairs of {} texts as shops have them (separators, spellings of nothing, markup, addresses, letters that look alike) in every field", shapes::odd().len()),
            "three categories of 1..129 options each, held by different numbers of 8 products (every 16th with searches)".into(),
            "names of 1 to 65 536 characters that differ in one character or in length only".into(),
            "126..300 distinct tags, options, categories; hash seeds".into(),
        ],
    })
}
