use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};
#[macro_use]
#[path = "../parts/corpus.rs"]
#[allow(dead_code)]
mod corpus;
#[path = "../parts/gramcase.rs"]
mod gramcase;
use gramcase::*;

fn s(g: &[char]) -> String {
    g.iter().collect()
}

fn lookup<const N: usize>(index: &sys::Gi<N>, r: &Ref, q: &[char], cx: &mut Cx) -> Result<(), String> {
    let Ok(query) = <[char; N]>::try_from(q.to_vec()) else { return Ok(()) };
    let (best, states) = r.reachable(q);
    let max = best.values().copied().fold(0.0, f64::max);
    let got = guarded(|| index.search_gram(query)).map_err(|e| format!("looking up {:?}: {e}", s(q)))?;
    cx.step(states as u64);
    cx.trace();
    match got {
        None => {
            cx.outcome(&0u8);
            if let Some((g, l)) = best.iter().max_by(|a, b| a.1.total_cmp(b.1)) {
                return Err(format!("looking up {:?} returns nothing; {:?} is reachable with likelihood {l}", s(q), s(g)));
            }
        }
        Some((gram, like)) => {
            cx.outcome(&(gram.to_vec(), like.to_bits()));
            let Some(want) = best.get(&gram.to_vec()) else {
                return Err(format!("looking up {:?} returns {:?}, which is not reachable within the correction budget", s(q), s(&gram)));
            };
            if *want < max * (1.0 - 1e-5) {
                let top = best.iter().find(|(_, l)| **l == max).map(|(g, _)| s(g));
                return Err(format!("looking up {:?} returns {:?} (likelihood {want}) although {top:?} has {max}", s(q), s(&gram)));
            }
            if (f64::from(like) - want).abs() > 1e-5 * want {
                return Err(format!("looking up {:?} returns {:?} with likelihood {like} instead of {want}", s(q), s(&gram)));
            }
        }
    }
    Ok(())
}

fn all<const N: usize>(texts: &[String], alphabet: &[char], cx: &mut Cx) -> Result<(), String> {
    let ps = catalogue(texts);
    let index = decoded::<N>(&ps)?;
    let r = Ref::of(&ps, N);
    cx.state(&r.count);
    for q in queries(alphabet, N) {
        lookup::<N>(&index, &r, &q, cx)?;
    }
    Ok(())
}

/// Lookups of everything that is rare in a text in which one character is very frequent.
fn rare<const N: usize>(kind: usize, cx: &mut Cx) -> Result<(), String> {
    let r = Ref::periodic(&shapes::frequent_texts(kind), N);
    let index = decoded::<N>(&shapes::frequent(kind))?;
    cx.state(&r.count);
    for g in r.raw_postings.keys() {
        for q in near(g, &['a', 'b', 'c', 'z'], 1, N) {
            lookup::<N>(&index, &r, &q, cx)?;
        }
    }
    Ok(())
}

fn edited<const N: usize>(ps: &[P], alphabet: &[char], edits: usize, from: usize, step: usize, cx: &mut Cx) -> Result<(), String> {
    let index = decoded::<N>(ps)?;
    let r = Ref::of(ps, N);
    cx.state(&r.count);
    let grams: Vec<Vec<char>> = r.raw_postings.keys().skip(from).step_by(step).cloned().collect();
    for g in grams {
        for q in near(&g, alphabet, edits, N) {
            lookup::<N>(&index, &r, &q, cx)?;
        }
    }
    Ok(())
}

/// Every beginning of up to four of three letters before the tail, and the tail with a block left out.
fn beginnings<const N: usize>(text: &str, tail: &str, cx: &mut Cx) -> Result<(), String> {
    let ps = catalogue(&[text.to_string()]);
    let index = decoded::<N>(&ps)?;
    let r = Ref::of(&ps, N);
    cx.state(&r.count);
    for b in strings(&['b', 'c', 'd'], 0, 3) {
        for (cut, len) in [(0, 0), (0, 1), (1, 2), (3, 1)] {
            let mut t: Vec<char> = tail.chars().collect();
            t.drain(cut..cut + len);
            let q: Vec<char> = format!("a{b}").chars().chain(t).take(N).collect();
            lookup::<N>(&index, &r, &q, cx)?;
        }
    }
    Ok(())
}

fn add_all(fams: &mut Vec<Family>, name: &'static str, n: usize, texts: Vec<Vec<String>>, alphabet: &'static [char], chunk: u64) {
    let texts = Rc::new(texts);
    let t2 = texts.clone();
    fams.push(Family::new(name, texts.len() as u64, chunk, move |i| format!("n={n} texts {:?}, all queries over {alphabet:?}", t2[i as usize]), move |i, cx| {
        sys::set_seed(i + 1);
        let t = &texts[i as usize];
        with_n!(n, all, t, alphabet, cx)
    }));
}

fn single(v: Vec<String>) -> Vec<Vec<String>> {
    v.into_iter().map(|t| vec![t]).collect()
}
fn pairs(v: &[String], w: &[String]) -> Vec<Vec<String>> {
    v.iter().flat_map(|a| w.iter().map(move |b| vec![a.clone(), b.clone()])).collect()
}

fn families(tier: Tier) -> Vec<Family> {
    let ab = ['a', 'b'];
    let abc = ['a', 'b', 'c'];
    let mut f = Vec::new();
    f.push(Family::new("very-frequent", tier.pick(2, 3), 1, |i| format!("one character more than 2^24 times, kind {i}, one-edit queries of every gram"), |i, cx| rare::<5>(i as usize, cx)));
    // large trees
    f.push(Family::new("large", 12, 1, |i| format!("{}, one-edit queries of some grams, part {}", ["20 000 products", shapes::WIDE[6], shapes::WIDE[7]][i as usize % 3], i / 3), move |i, cx| {
        sys::set_seed(i + 1);
        let part = i as usize / 3;
        match i % 3 {
            0 => edited::<5>(&shapes::many(20_000), &['r', 'd', '\u{4E01}', '\u{4E20}', 'z'], 1, part * 700, tier.pick(2800, 280), cx),
            1 => edited::<4>(&shapes::wide(6), &['q', '\u{5000}', '\u{9FFF}', 'z'], 1, part * 700, tier.pick(2800, 280), cx),
            _ => edited::<3>(&shapes::wide(7), &['q', '\u{5000}', '\u{9FFF}', 'z'], 1, part * 8000, tier.pick(32_000, 7_000), cx),
        }
        .map_err(shapes::cut)
    }));
    add_all(&mut f, "n1", 1, single(strings(&abc, 0, 3)), &['a', 'b', 'c', 'z'], 40);
    add_all(&mut f, "n2", 2, pairs(&strings(&abc, 0, 3), &strings(&abc, 0, 3)), &['a', 'b', 'c', 'z'], 200);
    add_all(&mut f, "n3", 3, pairs(&strings(&abc, 0, tier.pick(4, 5)), &strings(&abc, 2, 3)), &['a', 'b', 'c', 'z'], 400);
    add_all(&mut f, "n3-long", 3, single(strings(&ab, 5, tier.pick(9, 12))), &['a', 'b', 'z'], 100);
    add_all(&mut f, "n4", 4, pairs(&strings(&abc, 3, tier.pick(5, 6)), &strings(&abc, 4, 4)[..tier.pick(9, 27)]), &['a', 'b', 'c', 'z'], 50);
    add_all(&mut f, "n4-long", 4, single(strings(&ab, 5, tier.pick(9, 12))), &['a', 'b', 'z'], 100);
    add_all(&mut f, "n5", 5, single(strings(&abc, 4, tier.pick(6, 7))), &['a', 'b', 'c', 'z'], 20);
    add_all(&mut f, "n5-pairs", 5, pairs(&strings(&ab, 4, 6), &strings(&ab, 5, tier.pick(6, 7))), &['a', 'b', 'z'], 100);
    add_all(&mut f, "n5-long", 5, single(strings(&ab, 7, tier.pick(10, 13))), &['a', 'b', 'z'], 100);
    add_all(&mut f, "n6", 6, single(strings(&ab, 5, tier.pick(9, 12))), &['a', 'b', 'z'], 20);
    add_all(&mut f, "n6-abc", 6, single(strings(&abc, 6, tier.pick(6, 7))), &['a', 'b', 'c', 'z'], 6);
    add_all(&mut f, "n7", 7, single(strings(&ab, 6, tier.pick(8, 11))), &['a', 'b', 'z'], 8);
    add_all(&mut f, "n8", 8, single(strings(&ab, 7, tier.pick(8, 10))), &['a', 'b', 'z'], 4);
    add_all(&mut f, "n9", 9, single(strings(&ab, 9, tier.pick(9, 10)).into_iter().step_by(tier.pick(16, 4)).collect()), &['a', 'b', 'z'], 1);
    for (n, name) in [(10usize, "n10"), (11, "n11"), (12, "n12")] {
        let texts: Vec<String> = strings(&ab, n, n).into_iter().step_by(tier.pick(61, 7) << (n - 10)).flat_map(|t| [t.clone(), format!("{t}ab")]).collect();
        let texts = Rc::new(texts);
        let t2 = texts.clone();
        f.push(Family::new(name, texts.len() as u64, 1, move |i| format!("n={n} text {:?}, all queries over a and b", t2[i as usize]), move |i, cx| {
            sys::set_seed(i + 1);
            let t = &texts[i as usize..][..1];
            with_long_n!(n, all, t, &['a', 'b'], cx)
        }));
    }
    // gram lengths far beyond: every query within one edit of each gram
    let r = [tier.pick(5, 7), 20];
    f.push(Family::new("longer-grams", product(&r), 2, move |i| { let d = digits(i, &r); format!("n={}, texts around the gram length, shape {}, one-edit queries", corpus::LONG_GRAMS[d[0]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        let n = corpus::LONG_GRAMS[d[0]];
        let ps = corpus::long_gram_texts(n, d[1]);
        sys::set_seed(i + 1);
        with_long_n!(n, edited, &ps, &['a', 'b', 'z'], 1, 0, 1, cx)
    }));
    // longer alphabets: every text that is an arrangement of distinct letters with repeats, queries within two edits
    let words: Vec<String> = vec!["abcdef", "abcabdabe", "banana", "mississippi", "abcdeabcdf", "aabbccddee", "abacadae", "abcde abcdx abxde", "kunst kunsten kuns", "xabcdexabcdy"].into_iter().map(String::from).collect();
    let r = [6u64, words.len() as u64];
    let w2 = words.clone();
    f.push(Family::new("edited-words", product(&r), 2, move |i| { let d = digits(i, &r); format!("n={} text {:?}, all queries within two edits of each gram", d[0] + 3, w2[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = catalogue(&[words[d[1]].clone()]);
        let mut alphabet: Vec<char> = words[d[1]].chars().collect();
        alphabet.sort_unstable();
        alphabet.dedup();
        alphabet.push('z');
        let edits = 2;
        let n = d[0] + 3;
        with_n!(n, edited, &ps, &alphabet, edits, 0, 1, cx)
    }));
    // long grams, large budgets: words that share their beginning, queries with runs of other beginnings
    let few = strings(&['b', 'c', 'd'], 0, 2);
    let tails = ["efghijklmnopqrst", "efghefghefghefgh"];
    let r = [tier.pick(3, 5), few.len() as u64, 12, 12, 2, 2];
    let at = move |i: u64| {
        let d = digits(i, &r);
        (tier.pick([9, 12, 15, 0, 0], [9, 10, 12, 13, 15])[d[0]], d)
    };
    f.push(Family::new("long-grams", product(&r), 60, move |i| format!("case {:?}", at(i)), move |i, cx| {
        let (n, d) = at(i);
        let tail = tails[d[5]];
        let fill: Vec<String> = few[1..].iter().map(|q| format!("a{q} ")).collect();
        let text = format!("{}{}a{}{tail}", fill[d[2]].repeat([1, 4][d[4]]), fill[d[3]], few[d[1]]);
        sys::set_seed(i + 1);
        match n {
            9 => beginnings::<9>(&text, tail, cx),
            10 => beginnings::<10>(&text, tail, cx),
            12 => beginnings::<12>(&text, tail, cx),
            13 => beginnings::<13>(&text, tail, cx),
            _ => beginnings::<15>(&text, tail, cx),
        }
    }));
    let sizes: Vec<usize> = tier.pick(vec![2, 10, 60, 300], vec![2, 3, 5, 10, 30, 60, 129, 300, 600]);
    let parts = 24u64;
    let r = [sizes.len() as u64, parts];
    let s2 = sizes.clone();
    f.push(Family::new("structured", product(&r), 1, move |i| { let d = digits(i, &r); format!("n=5 structured catalogue of {}, all one-edit queries of every gram, part {}", s2[d[0]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::structured(sizes[d[0]]);
        let stride = tier.pick(20, 3);
        edited::<5>(&ps, &['e', 'r', ' ', '1', 'ø', 'z'], 1, d[1], parts as usize * stride, cx)
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C06",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["texts and queries contain no NUL character", "grams whose likelihoods differ by less than 1e-5 (32-bit rounding) count as equally likely"],
        bounds: |t| vec![
            t.pick("gram lengths 1..9: all queries over the alphabet plus an unseen character for all texts over {a,b} / {a,b,c} up to 3..10 characters, pairs of texts for gram lengths 2..5", "the same with texts up to 5..13 characters").into(),
            "gram lengths 10, 11, 12: all queries over {a,b} for texts of 10 to 14 characters; gram lengths 10 to 16 (thorough: 20), texts around the gram length, every query within one edit of every gram".into(),
            "gram lengths 9, 12, 15 (thorough: also 10, 13): words sharing their beginning, every query with up to three other letters at the beginning and four cuts of the rest".into(),
            "likelihoods below 2^-24: one character more than 2^24 times, one-edit queries of every gram".into(),
            "trees over 20 000 products, 70 000 roots, 70 000 continuations of one character: one-edit queries of some grams".into(),
            "gram lengths 3..8: all queries within two edits of every gram of ten words; structured catalogues with all one-edit queries of selected grams".into(),
        ],
    })
}
