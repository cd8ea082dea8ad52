use std::collections::BTreeMap;

use indexer_lib::ngram::GramNode;
use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};
#[path = "../parts/corpus.rs"]
mod corpus;

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * b.abs()
}

fn walk(r: &Ref, node: &GramNode<'_, char>, label: char, path: &mut Vec<char>, seen: &mut usize) -> Result<(), String> {
    path.push(label);
    let name = || path.iter().collect::<String>();
    if node.item != label {
        return Err(format!("the entry found under {:?} is labelled {:?}", name(), node.item));
    }
    if !r.count.contains_key(path) {
        return Err(format!("{:?} is a path of the tree but occurs in no text", name()));
    }
    *seen += 1;
    let want = r.weight(path);
    if !near(f64::from(node.weight), want) {
        return Err(format!("the likelihood of {:?} is {} instead of {want}", name(), node.weight));
    }
    let by_char: BTreeMap<char, *const GramNode<'_, char>> = node.items.iter().map(|(k, v)| (*k, *v as *const _)).collect();
    let by_pop: BTreeMap<char, *const GramNode<'_, char>> = node.by_occurances.iter().map(|v| (v.item, *v as *const _)).collect();
    if by_pop.len() != node.by_occurances.len() || by_char.keys().ne(by_pop.keys()) {
        return Err(format!("children of {:?}: by character {:?}, by popularity {:?}", name(), by_char.keys(), node.by_occurances.iter().map(|v| v.item).collect::<Vec<_>>()));
    }
    for w in node.by_occurances.windows(2) {
        if w[0].weight < w[1].weight {
            return Err(format!("children of {:?} are not sorted by popularity: {:?}", name(), node.by_occurances.iter().map(|v| (v.item, v.weight)).collect::<Vec<_>>()));
        }
    }
    // nodes compare by likelihood
    for (x, y) in node.by_occurances.windows(2).map(|w| (w[0], w[1])).chain(node.by_occurances.first().map(|c| (node, *c))) {
        for (x, y) in [(x, y), (y, x)] {
            let want = x.weight.partial_cmp(&y.weight);
            if Some(x.cmp(y)) != want || x.partial_cmp(y) != want {
                return Err(format!("{:?} ({}) and {:?} ({}) compare {:?}, {:?}", x.item, x.weight, y.item, y.weight, x.cmp(y), x.partial_cmp(y)));
            }
        }
    }
    for (c, child) in &node.items {
        walk(r, child, *c, path, seen)?;
    }
    // the listed child is the child found by character: same item, likelihood and children
    for listed in &node.by_occurances {
        if let Some(found) = node.items.get(&listed.item) {
            if listed.weight.to_bits() != found.weight.to_bits() || (!std::ptr::eq(*listed, *found) && listed.items.keys().collect::<std::collections::BTreeSet<_>>() != found.items.keys().collect()) {
                return Err(format!("child {:?} of {:?} differs between the two listings", listed.item, path.iter().collect::<String>()));
            }
        }
    }
    path.pop();
    Ok(())
}

fn tree<const N: usize>(ps: &[P], cx: &mut Cx) -> Result<(), String> {
    tree_of::<N>(ps, Ref::of(ps, N), cx)
}

fn tree_of<const N: usize>(ps: &[P], r: Ref, cx: &mut Cx) -> Result<(), String> {
    let bytes = sys::image_n::<N>(ps)?;
    let (index, _) = sys::must_decode::<N>(&bytes)?;
    let mut seen = 0;
    for (c, root) in &index.roots {
        walk(&r, root, *c, &mut Vec::new(), &mut seen)?;
    }
    if seen != r.count.len() {
        let has = |run: &[char]| {
            let mut n = index.roots.get(&run[0]).copied();
            for c in &run[1..] {
                n = n.and_then(|n| n.items.get(c).copied());
            }
            n.is_some()
        };
        let lost = r.count.keys().find(|k| !has(k)).map(|k| k.iter().collect::<String>());
        return Err(format!("{seen} paths instead of {}; {lost:?} occurs in a text but is no path of the tree", r.count.len()));
    }
    for (c, _) in &index.roots {
        let chain = guarded(|| index.most_popular_chain(*c))?;
        let mut path = vec![*c];
        if chain.first() != Some(c) || chain.len() > N {
            return Err(format!("the most popular chain from {c:?} is {chain:?}"));
        }
        for next in &chain[1..] {
            let kids = r.kids.get(&path).cloned().unwrap_or_default();
            let best = kids.iter().map(|k| { path.push(*k); let w = r.count[&path]; path.pop(); w }).max();
            path.push(*next);
            if r.count.get(&path).copied() != best {
                return Err(format!("the most popular chain from {c:?} is {chain:?}: {next:?} is not the most popular next character"));
            }
        }
        if path.len() < N && r.kids.contains_key(&path) {
            return Err(format!("the most popular chain from {c:?} ends early: {chain:?}"));
        }
        cx.outcome(&chain);
        cx.step(1);
    }
    if !guarded(|| index.most_popular_chain('\u{2603}'))?.is_empty() {
        return Err("a chain is returned for a character that occurs nowhere".into());
    }
    cx.state(&r.count);
    cx.step(seen as u64);
    cx.trace();
    Ok(())
}

/// Continuations whose numbers of occurrences differ by one or two, for numbers up to several 10^5.
fn close_likelihoods(tier: Tier, f: &mut Vec<Family>) {
    let mut ks: Vec<usize> = (1..=tier.pick(60, 700)).collect();
    let mut k = 64.0f64;
    while k < tier.pick(40_000.0, 400_000.0) {
        ks.push(k as usize);
        k *= tier.pick(1.35, 1.04);
    }
    for edge in [255, 256, 500, 999, 1000, 1001, 32767, 32768, 65535, 65536] {
        ks.push(edge);
    }
    // (more occurrences of the second, third letter), gram length
    let r = [ks.len() as u64, 6, 2];
    let at = move |i: u64, ks: &[usize]| {
        let d = digits(i, &r);
        (ks[d[0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 2], [2, 1, 0], [1, 2, 0]][d[1]], d[2] + 2)
    };
    let k2 = ks.clone();
    f.push(Family::new("close-likelihoods", product(&r), 12, move |i| { let (k, more, n) = at(i, &k2); format!("n={n}: {k} occurrences each of 'xa', 'xb', 'xc' and {more:?} more") }, move |i, cx| {
        let (k, more, n) = at(i, &ks);
        let ps: Vec<P> = ["xa", "xb", "xc"].iter().zip(more).enumerate().map(|(j, (t, m))| P::new(&format!("{j}")).desc(&t.repeat(k + m))).collect();
        sys::set_seed(i + 1);
        check(n, &ps, cx)
    }));
}

fn check(n: usize, ps: &[P], cx: &mut Cx) -> Result<(), String> {
    if n > 9 {
        return with_long_n!(n, tree, ps, cx);
    }
    with_n!(n, tree, ps, cx)
}

fn main() {
    run(&Spec {
        prop: "C05",
        level: "model_checking",
        init: sys::init,
        families: |t| {
            let mut f = Vec::new();
            f.push(Family::new("very-frequent", t.pick(2, 3), 1, |i| format!("one character more than 2^24 times, kind {i}"), |i, cx| {
                let kind = i as usize;
                tree_of::<5>(&shapes::frequent(kind), Ref::periodic(&shapes::frequent_texts(kind), 5), cx).map_err(shapes::cut)
            }));
            f.extend(corpus::families(t, check));
            close_likelihoods(t, &mut f);
            f
        },
        assumptions: &["texts contain no NUL character", "likelihoods are compared up to the rounding of 32-bit floats (relative 1e-6)"],
        bounds: |t| {
            let mut b = corpus::bounds(t);
            b.push(t.pick("three continuations with 1..40 000 occurrences each, differing by one or two, in six orders, gram lengths 2 and 3", "three continuations with 1..400 000 occurrences each (every number up to 700), differing by one or two, in six orders, gram lengths 2 and 3").into());
            b
        },
    })
}
