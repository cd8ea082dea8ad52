use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};
#[macro_use]
#[path = "../parts/corpus.rs"]
#[allow(dead_code)]
mod corpus;
#[path = "../parts/gramcase.rs"]
#[allow(dead_code)]
mod gramcase;
use gramcase::*;

fn s(g: &[char]) -> String {
    g.iter().collect()
}

/// Lowest and highest possible score per product when too many lookups are tied.
fn range(r: &Ref, q: &[char]) -> BTreeMap<usize, (f64, f64)> {
    let mut out: BTreeMap<usize, (f64, f64)> = BTreeMap::new();
    if q.len() < r.n {
        return out;
    }
    for w in q.windows(r.n) {
        let answers = r.lookup(w);
        let all: BTreeSet<usize> = answers.iter().flat_map(|(g, _)| r.postings(g).cloned().unwrap_or_default()).collect();
        for p in all {
            let each: Vec<f64> = answers.iter().map(|(g, l)| r.postings(g).map_or(0, |v| v.iter().filter(|x| **x == p).count()) as f64 * l).collect();
            let e = out.entry(p).or_insert((0.0, 0.0));
            e.0 += each.iter().copied().fold(f64::INFINITY, f64::min);
            e.1 += each.iter().copied().fold(0.0, f64::max);
        }
    }
    out
}

/// `got`: catalogue positions with confidences (or without, NaN).
fn judge(r: &Ref, q: &[char], got: &[(usize, f64)], cx: &mut Cx) -> Result<(), String> {
    let say = |what: String| Err(format!("searching {:?} gives {got:?}; {what}", s(q)));
    let ids: BTreeSet<usize> = got.iter().map(|g| g.0).collect();
    if ids.len() != got.len() {
        return say("a product is returned twice".into());
    }
    for w in got.windows(2) {
        if w[0].1 < w[1].1 {
            return say("the confidences are not in falling order".into());
        }
    }
    cx.outcome(&got.iter().map(|g| g.0).collect::<Vec<_>>());
    cx.trace();
    let positions: Vec<usize> = got.iter().map(|g| g.0).collect();
    match scores(r, q, 128) {
        Some(options) => {
            let fits = |m: &BTreeMap<usize, f64>| ranked_ok(m, &positions) && got.iter().all(|(p, c)| c.is_nan() || (c - m[p]).abs() <= 1e-4 * m[p]);
            if options.iter().any(fits) {
                Ok(())
            } else {
                say(format!("expected {:?}{}", options[0], if options.len() > 1 { format!(" or {} variants of it with tied lookups", options.len() - 1) } else { String::new() }))
            }
        }
        None => {
            let bounds = range(r, q);
            let mut least = f64::INFINITY;
            for (p, c) in got {
                let Some((lo, hi)) = bounds.get(p) else { return say(format!("product {p} matches no window")) };
                if !c.is_nan() && (*c < lo * (1.0 - 1e-4) || *c > hi * (1.0 + 1e-4)) {
                    return say(format!("product {p} must score between {lo} and {hi}"));
                }
                if *lo > least * (1.0 + 1e-4) {
                    return say(format!("product {p} is listed too late"));
                }
                least = least.min(*hi);
            }
            for (p, (lo, _)) in &bounds {
                if *lo > 0.0 && !ids.contains(p) {
                    return say(format!("product {p} is missing"));
                }
            }
            Ok(())
        }
    }
}

fn search<const N: usize>(index: &sys::Gi<N>, r: &Ref, q: &[char], cx: &mut Cx) -> Result<(), String> {
    let got = guarded(|| index.search(q.iter().copied()).into_iter().map(|(p, c)| (p.serialization_id, f64::from(c))).collect::<Vec<_>>()).map_err(|e| format!("searching {:?}: {e}", s(q)))?;
    cx.step(1 + q.len() as u64);
    judge(r, q, &got, cx)
}

fn all<const N: usize>(texts: &[String], alphabet: &[char], longest: usize, cx: &mut Cx) -> Result<(), String> {
    let ps = catalogue(texts);
    let index = decoded::<N>(&ps)?;
    let r = Ref::of(&ps, N);
    cx.state(&r.raw_postings);
    for len in 0..=longest {
        for q in queries(alphabet, len) {
            search::<N>(&index, &r, &q, cx)?;
        }
    }
    // searching leaves no trace: the first queries again
    for len in 0..=N.min(longest) {
        for q in queries(alphabet, len) {
            search::<N>(&index, &r, &q, cx).map_err(|e| format!("when repeated: {e}"))?;
        }
    }
    Ok(())
}

/// Searches of everything that is rare in texts in which one character is very frequent.
fn rare<const N: usize>(kind: usize, cx: &mut Cx) -> Result<(), String> {
    let r = Ref::periodic(&shapes::frequent_texts(kind), N);
    let index = decoded::<N>(&shapes::frequent(kind))?;
    cx.state(&r.count);
    for (g, list) in r.all_postings() {
        if list.len() < 1000 {
            for q in near(g, &['a', 'b', 'c', 'z'], 1, N) {
                if r.lookup(&q).iter().all(|(g, _)| r.postings(g).is_none_or(|l| l.len() < 1000)) {
                    search::<N>(&index, &r, &q, cx).map_err(shapes::cut)?;
                }
            }
        }
    }
    Ok(())
}

fn add(fams: &mut Vec<Family>, name: &'static str, n: usize, texts: Vec<Vec<String>>, alphabet: &'static [char], longest: usize, chunk: u64) {
    let texts = Rc::new(texts);
    let t2 = texts.clone();
    fams.push(Family::new(name, texts.len() as u64, chunk, move |i| format!("n={n} texts {:?}, all queries over {alphabet:?} up to {longest}", t2[i as usize]), move |i, cx| {
        sys::set_seed(i + 1);
        let t = &texts[i as usize];
        with_n!(n, all, t, alphabet, longest, cx)
    }));
}

fn lists(k: usize, v: &[String]) -> Vec<Vec<String>> {
    let mut out = vec![Vec::new()];
    for _ in 0..k {
        out = out.iter().flat_map(|l: &Vec<String>| v.iter().map(move |t| { let mut l = l.clone(); l.push(t.clone()); l })).collect();
    }
    out
}

/// Queries for a structured catalogue.
fn menu(n: usize) -> Vec<String> {
    let mut q: Vec<String> = ["", "r", "red", "red c", "circle", "square", "CIRCLE", "circel", "cirle", "ciircle", "sqaure", "titel 037", "Titel 074 ærø", "ærø", "ÆRØ VENDOR", "vendor 3", "vendor", "kunst", "red circletitel", "zzzzzzzz", "e vendor e vendor", "circle circle circle"].iter().map(|s| (*s).to_string()).collect();
    for i in [0, 1, n / 2, n.saturating_sub(1)] {
        if i < n {
            let t = token(i);
            q.push(t.clone());
            q.push(format!("{t} red circle"));
            let c: Vec<char> = t.chars().collect();
            q.push(c[..4].iter().collect());
            q.push(format!("{}x", c[..4].iter().collect::<String>()));
            q.push(format!("{}{}", t, token((i + 1) % n)));
        }
    }
    q
}

fn families(tier: Tier) -> Vec<Family> {
    let ab = ['a', 'b'];
    let abc = ['a', 'b', 'c'];
    let mut f = Vec::new();
    f.push(Family::new("very-frequent", tier.pick(2, 3), 1, |i| format!("one character more than 2^24 times, kind {i}, searches near every rare gram"), |i, cx| rare::<5>(i as usize, cx)));
    // very many products: more results than fit in one or two bytes
    let sizes: Vec<usize> = tier.pick(vec![88_000, 1_100], vec![140_000, 70_000, 65_537, 65_536, 32_769, 16_400, 4_200, 1_100]);
    let s2 = sizes.clone();
    f.push(Family::new("many", sizes.len() as u64, 1, move |i| format!("exported search over {} products", s2[i as usize]), move |i, cx| {
        let n = sizes[i as usize];
        let ps = shapes::many(n);
        sys::set_seed(i + 7);
        sys::must_load(&sys::image(&ps)?)?;
        let session = sys::Session::new()?;
        let r = Ref::of(&ps, 5);
        cx.state(&n);
        let none = sys::no_filter();
        let code = |i: usize| ps[i].desc.chars().take(5).collect::<String>();
        for q in ["rundt".to_string(), "kantet".into(), "RUNDTkantet".into(), "kante".into(), format!("rundt{}", code(n - 1)), format!("{}{}", code(n / 2), code(n - 2))] {
            let ids = session.ids(&q, None, &none, 2 * n + 10)?.ok_or_else(|| format!("searching {q:?} gives no result object"))?;
            let got: Vec<(usize, f64)> = sys::positions(&ps, &ids)?.into_iter().map(|p| (p, f64::NAN)).collect();
            cx.step(1 + got.len() as u64);
            judge(&r, &lower(&q), &got, cx).map_err(shapes::cut)?;
        }
        Ok(())
    }));
    add(&mut f, "n1", 1, lists(3, &strings(&ab, 0, 2)), &['a', 'b', 'z'], 4, 60);
    add(&mut f, "n2", 2, lists(3, &strings(&ab, 0, 3)), &['a', 'b', 'z'], 5, 200);
    add(&mut f, "n2-abc", 2, lists(2, &strings(&abc, 1, 3)), &['a', 'b', 'c', 'z'], 4, 200);
    add(&mut f, "n3", 3, lists(2, &strings(&ab, 2, tier.pick(5, 6))), &['a', 'b', 'z'], tier.pick(6, 7), 40);
    add(&mut f, "n3-three", 3, lists(3, &strings(&ab, 3, 4)[..tier.pick(16, 24)]), &['a', 'b', 'z'], tier.pick(5, 6), 100);
    add(&mut f, "n3-abc", 3, lists(2, &strings(&abc, 3, 3)), &['a', 'b', 'c', 'z'], 4, 80);
    add(&mut f, "n4", 4, lists(2, &strings(&ab, 4, 5)), &['a', 'b', 'z'], tier.pick(6, 7), 40);
    add(&mut f, "n5", 5, lists(2, &strings(&ab, 5, tier.pick(5, 6))), &['a', 'b', 'z'], tier.pick(7, 8), 16);
    add(&mut f, "n6", 6, lists(2, &strings(&ab, 6, 6)[..tier.pick(8, 32)]), &['a', 'b', 'z'], tier.pick(6, 7), 8);
    // repeated occurrences
    let rep: Vec<Vec<String>> = (1..=tier.pick(6, 12)).flat_map(|i| (0..=tier.pick(6, 12)).map(move |j| vec!["abc".repeat(i), "bca".repeat(j), "cab".into(), "ccb".into()])).collect();
    add(&mut f, "repeats", 3, rep, &['a', 'b', 'c', 'z'], 4, 8);
    // the exported search
    let sizes: Vec<usize> = tier.pick(vec![0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 20, 31, 40, 60, 100, 127, 128, 129, 200, 255, 256, 257, 300], (0..=300).chain([400, 513, 1000]).collect());
    let s2 = sizes.clone();
    f.push(Family::new("exported", sizes.len() as u64, 1, move |i| format!("exported search over a structured catalogue of {}", s2[i as usize]), move |i, cx| {
        let n = sizes[i as usize];
        let ps = shapes::structured(n);
        sys::set_seed(i + 7);
        sys::must_load(&sys::image(&ps)?)?;
        let session = sys::Session::new()?;
        let r = Ref::of(&ps, 5);
        cx.state(&r.raw_postings);
        let none = sys::no_filter();
        for round in 0..2 {
            for q in menu(n) {
                let ids = session.ids(&q, None, &none, 2 * n + 10)?.ok_or_else(|| format!("searching {q:?} gives no result object"))?;
                let got: Vec<(usize, f64)> = sys::positions(&ps, &ids)?.into_iter().map(|p| (p, f64::NAN)).collect();
                cx.step(1 + got.len() as u64);
                judge(&r, &lower(&q), &got, cx).map_err(|e| format!("round {round}: {e}"))?;
            }
        }
        Ok(())
    }));
    // long queries: a word at the end, at the beginning or in the middle of very many other characters
    let lens: Vec<usize> = tier.pick(vec![10, 60, 120, 250, 500, 1_000, 4_090, 65_530, 100_000], (1..=300).chain([510, 1_000, 1_020, 2_040, 4_090, 8_180, 16_380, 32_760, 65_530, 100_000, 1_000_000]).collect());
    let r = [lens.len() as u64, 4];
    let l2 = lens.clone();
    f.push(Family::new("long-queries", product(&r), tier.pick(2, 20), move |i| { let d = digits(i, &r); format!("a word in place {} of {} other characters", d[1], l2[d[0]]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::structured(20);
        sys::set_seed(i + 7);
        sys::must_load(&sys::image(&ps)?)?;
        let session = sys::Session::new()?;
        let r = Ref::of(&ps, 5);
        cx.state(&d);
        let none = sys::no_filter();
        let fill = |k: usize| "\u{2603}".repeat(k);
        let n = lens[d[0]];
        for k in -3i64..=3 {
            let n = (n as i64 + k).max(0) as usize;
            let word = token((n + d[1]) % 20);
            let q = match d[1] {
                0 => format!("{}{word}", fill(n)),
                1 => format!("{word}{}", fill(n)),
                2 => format!("{}{word}{}", fill(n / 2), fill(n - n / 2)),
                _ => format!("{word}{}circle{}{}", fill(n / 2), fill(n - n / 2), token(3)),
            };
            let ids = session.ids(&q, None, &none, 100)?.ok_or_else(|| format!("a search with {} characters gives no result object", q.chars().count()))?;
            let got: Vec<(usize, f64)> = sys::positions(&ps, &ids)?.into_iter().map(|p| (p, f64::NAN)).collect();
            cx.step(1 + got.len() as u64);
            judge(&r, &lower(&q), &got, cx).map_err(shapes::cut)?;
        }
        Ok(())
    }));
    // texts that shops really have, every pair of them as texts and as queries
    let k = shapes::odd().len() as u64;
    let r = [k, k];
    f.push(Family::new("odd-texts", product(&r), 800, move |i| { let d = digits(i, &r); format!("exported search, texts {:?} and {:?} in every field", shapes::odd()[d[0]], shapes::odd()[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let (a, b) = (shapes::odd()[d[0]], shapes::odd()[d[1]]);
        let ps = shapes::odd_catalogue(a, b);
        sys::set_seed(i + 1);
        sys::must_load(&sys::image(&ps)?)?;
        let session = sys::Session::new()?;
        let m = Ref::of(&ps, 5);
        cx.state(&m.raw_postings);
        let none = sys::no_filter();
        for q in [a.to_string(), format!("{a}{b}"), format!("{b} {a}"), token(1), format!("{}{a}", token(0)), format!("{b}{}", token(2)), format!("{a}{}", a.to_uppercase())] {
            let ids = session.ids(&q, None, &none, 20)?.ok_or_else(|| format!("searching {q:?} gives no result object"))?;
            let got: Vec<(usize, f64)> = sys::positions(&ps, &ids)?.into_iter().map(|p| (p, f64::NAN)).collect();
            cx.step(1);
            judge(&m, &lower(&q), &got, cx)?;
        }
        Ok(())
    }));
    // two words of several products, all pairs: order of likelihoods through the exported search
    let words: Vec<String> = strings(&['a', 'b', 'c'], 5, 5).into_iter().step_by(tier.pick(27, 7)).collect();
    let k = words.len() as u64;
    let r = [k, k, k];
    let w2 = words.clone();
    f.push(Family::new("exported-small", product(&r), 100, move |i| { let d = digits(i, &r); format!("exported search, products {:?}", d.iter().map(|j| &w2[*j]).collect::<Vec<_>>()) }, move |i, cx| {
        let d = digits(i, &r);
        let ps: Vec<P> = d.iter().enumerate().map(|(j, w)| P::new(&format!("id{j}")).desc(&words[*w]).title(["", "x", " abcab"][j]).vendor(&words[(*w + j) % words.len()])).collect();
        sys::set_seed(i + 1);
        sys::must_load(&sys::image(&ps)?)?;
        let session = sys::Session::new()?;
        let m = Ref::of(&ps, 5);
        cx.state(&m.raw_postings);
        let none = sys::no_filter();
        for q in words.iter().chain(&[format!("{}{}", words[d[0]], words[d[1]]), format!("x{}", words[d[2]]), "abcab".to_string(), " ABCA".to_string()]) {
            let ids = session.ids(q, None, &none, 20)?.ok_or_else(|| format!("searching {q:?} gives no result object"))?;
            let got: Vec<(usize, f64)> = sys::positions(&ps, &ids)?.into_iter().map(|p| (p, f64::NAN)).collect();
            cx.step(1);
            judge(&m, &lower(q), &got, cx)?;
        }
        Ok(())
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C07",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["texts and queries contain no NUL character; product ids are distinct", "lookups whose likelihoods differ by less than 1e-5 may be resolved either way", "confidences are compared up to relative 1e-4"],
        bounds: |t| vec![
            t.pick("gram lengths 1..6: catalogues of 2-3 texts over {a,b}/{a,b,c} with all queries up to n+3 characters", "gram lengths 1..6 with longer texts and queries").into(),
            "one character more than 2^24 times, searches within one edit of every rare gram".into(),
            t.pick("1 100 and 88 000 products (a word in 66 000 of them)", "1 100 to 140 000 products").into(),
            t.pick("queries of up to 100 000 characters with a word at either end or in the middle", "queries of every length to 300 and up to 1 000 000 characters with a word at either end or in the middle").into(),
            format!("all pairs of {} texts as shops have them (separators, spellings of nothing, markup, addresses, letters that look alike) in every field and as queries", shapes::odd().len()),
            "all combinations of repeated occurrences; exported search on structured catalogues of 0..300 products, every query twice; all triples of 5-letter words".into(),
        ],
    })
}
