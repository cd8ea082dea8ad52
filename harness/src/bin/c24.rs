//! C24: the gram index treats every kind of gram and every kind of data alike.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use colosseum::sync::Arena;
use indexer_lib as ix;
use ix::data::{optimize, Product, ProductContainer};
use ix::ngram::{GramAtom, GramIndex, GramNode, HashExtractable, IndexFeed};
use ix::serialize::{deserialize_all, serialize_all, Deserializable, Serializable};
use vharness::engine::*;
use vharness::model::*;
use vharness::sys;
#[macro_use]
#[path = "../parts/corpus.rs"]
#[allow(dead_code)]
mod corpus;
#[path = "../parts/gramcase.rs"]
#[allow(dead_code)]
mod gramcase;
use gramcase::queries;

const LETTERS: [char; 4] = ['a', 'b', 'c', 'z'];

/// A kind of gram: three values that stand for the letters a, b and c, and one that occurs nowhere.
trait Kind: GramAtom + 'static {
    const NAME: &'static str;
    const VALUES: [Self; 4];
    fn of(c: char) -> Self {
        Self::VALUES[LETTERS.iter().position(|l| *l == c).unwrap_or(3)]
    }
    fn letter(self) -> char {
        Self::VALUES.iter().position(|v| *v == self).map_or('?', |i| LETTERS[i])
    }
}

impl Kind for u8 {
    const NAME: &'static str = "u8";
    const VALUES: [u8; 4] = [1, 129, 255, 128];
}
impl Kind for u32 {
    const NAME: &'static str = "u32";
    const VALUES: [u32; 4] = [1, 1 + (1 << 16), 1 + (1 << 31), 257];
}
impl Kind for u64 {
    const NAME: &'static str = "u64";
    const VALUES: [u64; 4] = [1, 1 + (1 << 32), u64::MAX, 1 << 32];
}
impl Kind for usize {
    const NAME: &'static str = "usize";
    const VALUES: [usize; 4] = [1, 1 + (1 << 32), 1 + (1 << 63), 1 << 32];
}
impl Kind for char {
    const NAME: &'static str = "char";
    const VALUES: [char; 4] = ['a', '\u{10061}', '\u{161}', '\u{20061}'];
}
/// Pairs, as an array.
impl Kind for [u8; 2] {
    const NAME: &'static str = "[u8; 2]";
    const VALUES: [[u8; 2]; 4] = [[1, 0], [0, 1], [1, 1], [2, 0]];
}
impl Kind for [u64; 2] {
    const NAME: &'static str = "[u64; 2]";
    const VALUES: [[u64; 2]; 4] = [[1, 1 << 40], [1, 2 << 40], [2, 1 << 40], [2, 2 << 40]];
}
/// A kind of its own, whose default is not zero.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Word(u16);
impl Default for Word {
    fn default() -> Word {
        Word(9)
    }
}
impl Serializable for Word {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        self.0.to_le_bytes().into_iter().for_each(|b| output(b));
    }
}
impl Deserializable for Word {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (a, rest) = input.split_first()?;
        let (b, rest) = rest.split_first()?;
        Some((rest, Word(u16::from_le_bytes([*a, *b]))))
    }
}
impl Kind for Word {
    const NAME: &'static str = "a kind whose default is not zero";
    const VALUES: [Word; 4] = [Word(0), Word(256), Word(65535), Word(1)];
}

const KINDS: [&str; 8] = [u8::NAME, u32::NAME, u64::NAME, usize::NAME, char::NAME, <[u8; 2]>::NAME, <[u64; 2]>::NAME, Word::NAME];
const DATA: [&str; 6] = ["products", "products, saved and loaded", "strings in reverse order", "strings in order, two more products than strings", "strings, a copy for every piece", "references to products"];

fn node<G: Kind>(r: &Ref, n: &GramNode<'_, G>, label: char, path: &mut Vec<char>, seen: &mut usize) -> Result<(), String> {
    path.push(label);
    let name: String = path.iter().collect();
    if n.item.letter() != label {
        return Err(format!("the entry found under {name:?} is labelled {:?}", n.item));
    }
    if !r.count.contains_key(path) {
        return Err(format!("{name:?} is a path of the tree but occurs in no text"));
    }
    *seen += 1;
    let want = r.weight(path);
    if (f64::from(n.weight) - want).abs() > 1e-6 * want {
        return Err(format!("the likelihood of {name:?} is {} instead of {want}", n.weight));
    }
    let by_gram: BTreeMap<char, u32> = n.items.iter().map(|(k, v)| (k.letter(), v.weight.to_bits())).collect();
    let listed: BTreeMap<char, u32> = n.by_occurances.iter().map(|v| (v.item.letter(), v.weight.to_bits())).collect();
    if by_gram != listed || listed.len() != n.by_occurances.len() {
        return Err(format!("children of {name:?}: by gram {by_gram:?}, by popularity {listed:?}"));
    }
    if n.by_occurances.windows(2).any(|w| w[0].weight < w[1].weight) {
        return Err(format!("children of {name:?} are not sorted by popularity"));
    }
    for (k, v) in &n.items {
        node(r, v, k.letter(), path, seen)?;
    }
    path.pop();
    Ok(())
}

type At<'a, D> = &'a dyn Fn(&D) -> usize;

fn index_is<G: Kind, D: Ord + HashExtractable + Debug, const N: usize>(index: &GramIndex<'static, G, D, N>, r: &Ref, at: At<D>, cx: &mut Cx) -> Result<(), String> {
    let mut seen = 0;
    for (k, v) in &index.roots {
        node(r, v, k.letter(), &mut Vec::new(), &mut seen)?;
    }
    if seen != r.count.len() {
        return Err(format!("the tree has {seen} paths instead of {}", r.count.len()));
    }
    let got: BTreeMap<Vec<char>, Vec<usize>> = index.data.iter().filter(|(k, _)| k[0] != G::default()).map(|(k, v)| (k.iter().map(|g| g.letter()).collect(), v.iter().map(|d| at(d)).collect())).collect();
    let want: BTreeMap<Vec<char>, Vec<usize>> = r.all_postings().into_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if got != want {
        return Err(format!("the entries are {got:?} instead of {want:?}"));
    }
    // of long grams those of the texts, with a wrong one in the middle, and all of one kind
    let lookups: Vec<Vec<char>> = if N <= 6 {
        queries(&LETTERS, N).collect()
    } else {
        let windows = r.raw_postings.keys().cloned();
        windows.clone().chain(windows.map(|mut w| { let k = N / 2; w[k] = 'z'; w })).chain(LETTERS.map(|c| vec![c; N])).collect()
    };
    for q in lookups {
        let s: String = q.iter().collect();
        let mut query = [G::default(); N];
        query.iter_mut().zip(&q).for_each(|(g, c)| *g = G::of(*c));
        let answers = r.lookup(&q);
        let found = guarded(|| index.search_gram(query)).map_err(|e| format!("looking up {s:?}: {e}"))?;
        let found = found.map(|(g, l)| (g.iter().map(|g| g.letter()).collect::<Vec<_>>(), f64::from(l)));
        let fits = match &found {
            None => answers.is_empty(),
            Some((g, l)) => answers.iter().any(|(a, b)| a == g && (l - b).abs() <= 1e-5 * b),
        };
        if !fits {
            return Err(format!("looking up {s:?} gives {found:?}; expected one of {answers:?}"));
        }
        cx.outcome(&found.map(|f| f.0));
        cx.step(1);
    }
    let searches: Vec<Vec<char>> = if N <= 6 {
        queries(&LETTERS[..3], N + 1).chain(queries(&LETTERS[..2], N - 1)).collect()
    } else {
        r.raw_postings.keys().flat_map(|w| [w.clone(), w[1..].to_vec(), [&w[..], &['a']].concat()]).collect()
    };
    for q in searches {
        let s: String = q.iter().collect();
        let found = guarded(|| index.search(q.iter().map(|c| G::of(*c))).into_iter().map(|(d, c)| (at(d), f64::from(c))).collect::<Vec<_>>()).map_err(|e| format!("searching {s:?}: {e}"))?;
        cx.step(1);
        if let Some(options) = scores(r, &q, 128) {
            let order: Vec<usize> = found.iter().map(|f| f.0).collect();
            if !options.iter().any(|m| ranked_ok(m, &order) && found.iter().all(|(p, c)| (c - m[p]).abs() <= 1e-4 * m[p])) {
                return Err(format!("searching {s:?} gives {found:?}; expected {:?}", options[0]));
            }
        }
    }
    for (k, _) in &index.roots {
        let chain: Vec<char> = guarded(|| index.most_popular_chain(*k))?.iter().map(|g| g.letter()).collect();
        let best = |path: &[char]| r.kids.get(path).and_then(|c| c.iter().map(|c| r.count[&[path, &[*c]].concat()]).max());
        let right = chain.first() == Some(&k.letter()) && (1..=chain.len()).all(|i| best(&chain[..i]) == chain.get(i).map(|_| r.count.get(&chain[..=i]).copied().unwrap_or(0)));
        if !right {
            return Err(format!("the most popular chain from {:?} is {chain:?}", k.letter()));
        }
    }
    if !guarded(|| index.most_popular_chain(G::VALUES[3]))?.is_empty() {
        return Err("a chain is returned for a gram that occurs nowhere".into());
    }
    cx.trace();
    Ok(())
}

/// `data`: one for every piece.
fn built<G: Kind, D: Ord, const N: usize>(pieces: &[(usize, String)], data: &[&'static D], container: &'static ProductContainer<'static>) -> Result<GramIndex<'static, G, D, N>, String> {
    let feed = pieces.iter().zip(data).map(|((_, text), data)| IndexFeed { data: *data, grams: text.chars().map(G::of) });
    guarded(|| GramIndex::index_from(feed, sys::leak(Arena::new()), container)).map_err(|e| format!("indexing: {e}"))
}

/// `pieces`: owner and text, in the order in which they are fed; `owners`: how many there are.
fn case<G: Kind, const N: usize>(owners: usize, pieces: &[(usize, String)], data: usize, cx: &mut Cx) -> Result<(), String> {
    let extra = if data == 3 { 2 } else { 0 };
    let ps: Vec<P> = (0..owners + extra).map(|i| P::new(&format!("p{i}"))).collect();
    let raw = sys::raw(&ps)?;
    let (container, classic) = guarded(|| optimize(raw, sys::super_alloc()))?;
    let mut r = Ref::new(&pieces.iter().map(|p| p.1.chars().collect()).collect::<Vec<_>>(), N);
    r.products = owners + extra;
    let rank = |owner: usize| if data == 2 { owners - 1 - owner } else { owner };
    for list in r.raw_postings.values_mut() {
        list.iter_mut().for_each(|p| *p = rank(pieces[*p].0));
        list.sort_unstable();
    }
    cx.state(&(N, &r.count, data));
    if data < 2 {
        let refs: Vec<&'static Product<'static>> = pieces.iter().map(|p| &container.products[p.0]).collect();
        let index = built::<G, Product, N>(pieces, &refs, container)?;
        if data == 0 {
            return index_is(&index, &r, &|p| p.serialization_id, cx);
        }
        let bytes = guarded(|| serialize_all(&index, &classic))?;
        match guarded(|| deserialize_all::<G, N>(&bytes, sys::leak(Arena::new()), sys::super_alloc()))? {
            Some((again, _)) => {
                if again.product_container.products.len() != owners {
                    return Err("products are lost when saving and loading".into());
                }
                if !guarded(|| again.roots.len() == index.roots.len() && again.data == index.data)? {
                    return Err("the entries differ after saving and loading".into());
                }
                index_is(&again, &r, &|p| p.serialization_id, cx)
            }
            None => Err("the freshly saved image is refused".into()),
        }
    } else if data == 5 {
        let refs: Vec<&'static &'static Product<'static>> = container.products.iter().map(|p| &*sys::leak(p)).collect();
        let fed: Vec<_> = pieces.iter().map(|p| refs[p.0]).collect();
        let index = built::<G, &'static Product<'static>, N>(pieces, &fed, container)?;
        index_is(&index, &r, &|p| p.serialization_id, cx)
    } else {
        let one_each: Vec<&'static String> = (0..owners).map(|i| &*sys::leak(format!("{}", rank(i)))).collect();
        let names: Vec<&'static String> = pieces.iter().map(|p| if data == 4 { &*sys::leak(one_each[p.0].clone()) } else { one_each[p.0] }).collect();
        let index = built::<G, String, N>(pieces, &names, container)?;
        index_is(&index, &r, &|s: &String| s.parse().unwrap_or(usize::MAX), cx)
    }
}

macro_rules! with_few {
    ($n:expr, $f:ident, $g:ty, $($a:expr),*) => {
        match $n {
            1 => $f::<$g, 1>($($a),*),
            2 => $f::<$g, 2>($($a),*),
            3 => $f::<$g, 3>($($a),*),
            4 => $f::<$g, 4>($($a),*),
            5 => $f::<$g, 5>($($a),*),
            6 => $f::<$g, 6>($($a),*),
            7 => $f::<$g, 8>($($a),*),
            8 => $f::<$g, 9>($($a),*),
            9 => $f::<$g, 12>($($a),*),
            _ => $f::<$g, 17>($($a),*),
        }
    };
}

fn of_n<G: Kind>(n: usize, owners: usize, pieces: &[(usize, String)], data: usize, cx: &mut Cx) -> Result<(), String> {
    with_few!(n, case, G, owners, pieces, data, cx)
}

fn of_kind(kind: usize, n: usize, owners: usize, pieces: &[(usize, String)], data: usize, cx: &mut Cx) -> Result<(), String> {
    match kind {
        0 => of_n::<u8>(n, owners, pieces, data, cx),
        1 => of_n::<u32>(n, owners, pieces, data, cx),
        2 => of_n::<u64>(n, owners, pieces, data, cx),
        3 => of_n::<usize>(n, owners, pieces, data, cx),
        4 => of_n::<char>(n, owners, pieces, data, cx),
        5 => of_n::<[u8; 2]>(n, owners, pieces, data, cx),
        6 => of_n::<[u64; 2]>(n, owners, pieces, data, cx),
        _ => of_n::<Word>(n, owners, pieces, data, cx),
    }
}

/// Two strings with the texts x y x and y x, in grams of two bytes.
fn bytes(x: u8, y: u8, cx: &mut Cx) -> Result<(), String> {
    thread_local!(static C: &'static ProductContainer<'static> = {
        let raw = sys::raw(&(0..3).map(|i| P::new(&format!("p{i}"))).collect::<Vec<_>>()).unwrap_or_else(|e| panic!("{e}"));
        optimize(raw, sys::super_alloc()).0
    });
    thread_local!(static NAMES: [&'static String; 2] = [sys::leak("0".to_string()), sys::leak("1".to_string())]);
    let (c, names) = (C.with(|c| *c), NAMES.with(|n| *n));
    let texts = [vec![x, y, x], vec![y, x]];
    let feed = texts.iter().zip(names).map(|(t, data)| IndexFeed { data, grams: t.iter().copied() });
    let index: GramIndex<'static, u8, String, 2> = guarded(|| GramIndex::index_from(feed, sys::leak(Arena::new()), c)).map_err(|e| format!("indexing: {e}"))?;
    let mut want: BTreeMap<[u8; 2], Vec<usize>> = BTreeMap::new();
    for (k, t) in texts.iter().enumerate() {
        for w in t.windows(2) {
            want.entry([w[0], w[1]]).or_default().push(k);
        }
    }
    let got: BTreeMap<[u8; 2], Vec<usize>> = index.data.iter().filter(|(k, _)| k[0] != 0).map(|(k, v)| (*k, v.iter().map(|s| s.parse().unwrap_or(9)).collect())).collect();
    if got != want {
        return Err(format!("the entries are {got:?} instead of {want:?}"));
    }
    let grams: BTreeSet<u8> = [x, y].into();
    if index.roots.keys().copied().collect::<BTreeSet<_>>() != grams || index.roots.len() != grams.len() || index.roots.iter().any(|(k, n)| n.item != *k) {
        return Err(format!("the tree begins with {:?}", index.roots.keys().collect::<Vec<_>>()));
    }
    for (gram, list) in &want {
        match guarded(|| index.search_gram(*gram))? {
            Some((found, _)) if found == *gram => {}
            other => return Err(format!("looking up {gram:?} gives {other:?}")),
        }
        let found: BTreeSet<String> = guarded(|| index.search(gram.iter().copied()).into_iter().map(|(d, _)| d.clone()).collect())?;
        if found != list.iter().map(usize::to_string).collect() && x != y {
            return Err(format!("searching {gram:?} gives {found:?} instead of {list:?}"));
        }
        cx.step(2);
    }
    cx.state(&(x, y));
    cx.outcome(&(x == y));
    cx.trace();
    Ok(())
}

/// The first N - 1 grams of a text and one of padding, taken again and again from the same text.
fn padded<G: Kind, const N: usize>(text: &[char], cx: &mut Cx) -> Result<(), String> {
    let mut left = text.iter().map(|c| G::of(*c));
    let mut at = 0;
    for _ in 0..4 {
        let got = guarded(|| ix::ngram::n_gram_with_1_padding::<N, G, _>(&mut left))?;
        let want = text.get(at..at + N - 1).map(|t| {
            let mut w = [G::default(); N];
            w.iter_mut().zip(t).for_each(|(g, c)| *g = G::of(*c));
            w
        });
        if got != want {
            return Err(format!("from gram {at} on the padded gram of {N} is {got:?} instead of {want:?}"));
        }
        cx.outcome(&got.is_some());
        cx.step(1);
        if got.is_none() {
            break;
        }
        at += N - 1;
        if left.clone().count() != text.len() - at {
            return Err(format!("after the padded grams up to {at} of {}, {} grams are left", text.len(), left.count()));
        }
    }
    cx.state(&(N, text));
    cx.trace();
    Ok(())
}

/// Who owns which text: each its own; the first twice; in reverse order; one owner of all, another of nothing.
const OWNERS: [(&str, usize, [usize; 3]); 4] = [("one each", 3, [0, 1, 2]), ("the first and last of one", 2, [0, 1, 0]), ("fed in reverse", 3, [2, 1, 0]), ("all of the second of two", 2, [1, 1, 1])];

fn main() {
    run(&Spec {
        prop: "C24",
        level: "model_checking",
        init: sys::init,
        families: |t| {
            let texts = strings(&['a', 'b', 'c'], 0, t.pick(2, 3));
            let more = strings(&['a', 'b'], 3, t.pick(4, 5));
            let k = texts.len() as u64;
            let m = more.len() as u64;
            let mut f = Vec::new();
            // single texts of one owner, two owners of which one has no text
            let r = [m + k, KINDS.len() as u64, DATA.len() as u64, 4, 2];
            let all: Vec<String> = texts.iter().chain(&more).cloned().collect();
            let make = move |i: u64, all: &[String]| {
                let d = digits(i, &r);
                (d[1], d[3] + 1, 1 + d[4], vec![(d[4], all[d[0]].clone())], d[2])
            };
            let a2 = all.clone();
            f.push(Family::new("one-text", product(&r), 64, move |i| show(make(i, &a2)), move |i, cx| {
                sys::set_seed(i + 1);
                let (kind, n, owners, pieces, data) = make(i, &all);
                of_kind(kind, n, owners, &pieces, data, cx)
            }));
            // three texts
            // each combination of texts, owners and kind with one kind of data and one gram length, in turns
            let r = [k, m, KINDS.len() as u64, OWNERS.len() as u64, k];
            let make = move |i: u64, texts: &[String], more: &[String]| {
                let d = digits(i, &r);
                let (_, owners, own) = OWNERS[d[3]];
                let pieces = vec![(own[0], texts[d[0]].clone()), (own[1], texts[d[4]].clone()), (own[2], more[d[1]].clone())];
                (d[2], (d[0] / 4 + d[1] + d[3] + d[4] / 3) % 4 + 1, owners, pieces, (d[0] + d[1] + d[2] + 3 * d[4]) % 6)
            };
            let total = product(&r);
            let (t2, m2) = (texts.clone(), more.clone());
            f.push(Family::new("three-texts", total, 64, move |i| show(make(i, &t2, &m2)), move |i, cx| {
                sys::set_seed(i + 1);
                let (kind, n, owners, pieces, data) = make(i, &texts, &more);
                of_kind(kind, n, owners, &pieces, data, cx)
            }));
            // deeper trees, with corrections
            let deep = strings(&['a', 'b', 'c'], t.pick(5, 5), t.pick(5, 6));
            let d = deep.len() as u64;
            let r = [d, KINDS.len() as u64, DATA.len() as u64, 2];
            let total = t.pick(d * KINDS.len() as u64, product(&r));
            let make = move |i: u64, deep: &[String]| {
                let d = if total == product(&r) { digits(i, &r) } else {
                    let s = digits(i, &[r[0], r[1]]);
                    vec![s[0], s[1], (s[0] + s[1]) % 6, (s[0] / 5 + s[1]) % 2]
                };
                let text = &deep[d[0]];
                let pieces = vec![(0, text.clone()), (1, text[1..].to_string() + "ba"), (0, "ab".to_string() + &text[2..])];
                (d[1], d[3] + 5, 2, pieces, d[2])
            };
            let deep = std::rc::Rc::new(deep);
            let d2 = deep.clone();
            f.push(Family::new("deeper", total, 16, move |i| show(make(i, &d2)), move |i, cx| {
                sys::set_seed(i + 1);
                let (kind, n, owners, pieces, data) = make(i, &deep);
                of_kind(kind, n, owners, &pieces, data, cx)
            }));
            // long grams
            let long: Vec<String> = ["abcabcabcabcabcabcabcabc", "aaaaaaaaaaaaaaaaaaaabc", "abababababababababacacacacab", "cbacbcaabcbcabacbbacabacbcbac"].map(String::from).to_vec();
            let r = [4, KINDS.len() as u64, DATA.len() as u64, 4, OWNERS.len() as u64];
            let make = move |i: u64, long: &[String]| {
                let d = digits(i, &r);
                let (_, owners, own) = OWNERS[d[4]];
                let pieces = vec![(own[0], long[d[0]].clone()), (own[1], long[(d[0] + 1) % 4][..18].to_string()), (own[2], long[(d[0] + 2) % 4][3..16].to_string())];
                (d[1], d[3] + 7, owners, pieces, d[2])
            };
            let l2 = long.clone();
            f.push(Family::new("long-grams", product(&r), 16, move |i| show(make(i, &l2)), move |i, cx| {
                sys::set_seed(i + 1);
                let (kind, n, owners, pieces, data) = make(i, &long);
                of_kind(kind, n, owners, &pieces, data, cx)
            }));
            // padded grams
            let cut = std::rc::Rc::new(strings(&['a', 'b', 'c'], 0, t.pick(6, 8)));
            let c2 = cut.clone();
            f.push(Family::new("padded", cut.len() as u64 * KINDS.len() as u64, 64, move |i| format!("the padded grams of 1 to 8 {} in {:?}", KINDS[i as usize % KINDS.len()], c2[i as usize / KINDS.len()]), move |i, cx| {
                let text: Vec<char> = cut[i as usize / KINDS.len()].chars().collect();
                macro_rules! all {
                    ($g:ty) => {{
                        padded::<$g, 1>(&text, cx)?;
                        padded::<$g, 2>(&text, cx)?;
                        padded::<$g, 3>(&text, cx)?;
                        padded::<$g, 4>(&text, cx)?;
                        padded::<$g, 8>(&text, cx)
                    }};
                }
                match i as usize % KINDS.len() {
                    0 => all!(u8),
                    1 => all!(u32),
                    2 => all!(u64),
                    3 => all!(usize),
                    4 => all!(char),
                    5 => all!([u8; 2]),
                    6 => all!([u64; 2]),
                    _ => all!(Word),
                }
            }));
            // every value of a byte, next to every other
            f.push(Family::new("every-byte", 255 * 255, 2000, |i| format!("the texts x y x and y x of bytes, x = {}, y = {}", i / 255 + 1, i % 255 + 1), |i, cx| bytes((i / 255 + 1) as u8, (i % 255 + 1) as u8, cx)));
            f
        },
        assumptions: &["no text contains the default value of its kind of gram (it is the padding of a window that is not full yet)", "likelihoods are compared up to rounding; of equally likely grams any may be returned"],
        bounds: |t| {
            vec![
                "gram kinds u8, u32, u64, usize, char, [u8; 2], [u64; 2] and a kind whose default is not zero, with values that agree in their lower 8, 16 or 32 bits; data: products (as built, and saved and loaded), references to products, strings in and against the order in which they are fed; gram lengths 1 to 4".into(),
                format!("one-text: every text of up to {} of three grams and of 3 to {} of two, of one owner or of the second of two", t.pick(2, 3), t.pick(4, 5)),
                "three-texts: two of the former and one of the latter, each of its own owner, two of one owner, in reverse order, all of one of two owners; each combination of texts, kind and ownership with one kind of data and one gram length".into(),
                format!("deeper: every text of {} of three grams with two more made of it, of two owners, grams of 5 and 6 {}", t.pick("5", "5 and 6"), t.pick("(each text and kind with one kind of data)", "(every kind of data)")),
                "long-grams: four sets of three texts of up to 29 grams x every kind, data and ownership, grams of 8, 9, 12 and 17; lookups and searches of the grams of the texts, as they are and with a wrong one in the middle".into(),
                format!("padded: n_gram_with_1_padding of 1, 2, 3, 4 and 8, repeatedly, on every text of up to {} of three grams, for every kind", t.pick(6, 8)),
                "every-byte: all pairs of bytes (not 0) next to each other in two texts".into(),
                "in all but the last two: the whole tree, all entries, all lookups of N of four grams, all searches of N + 1 of three and N - 1 of two grams, all most popular chains".into(),
            ]
        },
    })
}

fn show((kind, n, owners, pieces, data): (usize, usize, usize, Vec<(usize, String)>, usize)) -> String {
    format!("grams of {}, gram length number {n}, data {}, {owners} owners, texts (owner, text) {pieces:?}", KINDS[kind], DATA[data])
}
