//! Catalogue families shared by the checks of the gram index (C04, C05).
use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

pub type Check = fn(usize, &[P], &mut Cx) -> Result<(), String>;

#[macro_export]
macro_rules! with_n {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            1 => $f::<1>($($a),*),
            2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*),
            6 => $f::<6>($($a),*),
            7 => $f::<7>($($a),*),
            8 => $f::<8>($($a),*),
            _ => $f::<9>($($a),*),
        }
    };
}

/// Gram lengths beyond those of `with_n`.
pub const LONG_GRAMS: [usize; 14] = [10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 127, 128, 130];

#[macro_export]
macro_rules! with_long_n {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            10 => $f::<10>($($a),*),
            11 => $f::<11>($($a),*),
            12 => $f::<12>($($a),*),
            15 => $f::<15>($($a),*),
            16 => $f::<16>($($a),*),
            17 => $f::<17>($($a),*),
            20 => $f::<20>($($a),*),
            31 => $f::<31>($($a),*),
            32 => $f::<32>($($a),*),
            33 => $f::<33>($($a),*),
            64 => $f::<64>($($a),*),
            127 => $f::<127>($($a),*),
            128 => $f::<128>($($a),*),
            _ => $f::<130>($($a),*),
        }
    };
}

/// Texts around the gram length: shorter, as long, longer; repeating after 1, 2, 3 characters or late.
pub fn long_gram_texts(n: usize, k: usize) -> Vec<P> {
    let over = |unit: &str, len: usize| unit.chars().cycle().take(len).collect::<String>();
    let (a, b) = ([("ab", "ba"), ("a", "ab"), ("abc", "abd"), ("aab", "b")][k % 4], k / 4);
    let lens = [[n - 1, n], [n, n + 1], [n + 1, n + 9], [n + 9, n - 1], [2 * n, n]][b % 5];
    vec![product_of(0, &over(a.0, lens[0])), product_of(1, &over(a.1, lens[1])), product_of(2, &format!("{}x{}", over(a.0, n - 1), over(a.1, 3)))]
}

fn product_of(i: usize, text: &str) -> P {
    P::new(&format!("id{i}")).desc(text)
}

fn push(fams: &mut Vec<Family>, name: &'static str, total: u64, chunk: u64, make: impl Fn(u64) -> (usize, Vec<P>) + 'static, check: Check) {
    let make = Rc::new(make);
    let m2 = make.clone();
    fams.push(Family::new(
        name,
        total,
        chunk,
        move |i| {
            let (n, ps) = m2(i);
            format!("n={n} {}", brief(&ps))
        },
        move |i, cx| {
            let (n, ps) = make(i);
            sys::set_seed(i + 1);
            check(n, &ps, cx)
        },
    ));
}

pub fn families(tier: Tier, check: Check) -> Vec<Family> {
    let mut fams = Vec::new();
    let r = [LONG_GRAMS.len() as u64, 20];
    push(&mut fams, "long-grams", product(&r), 20, move |i| { let d = digits(i, &r); let n = LONG_GRAMS[d[0]]; (n, long_gram_texts(n, d[1])) }, check);
    // very many products: a word in more than 2^16 of them
    let many: Vec<usize> = tier.pick(vec![88_000], vec![180_000, 88_000, 65_537, 20_000]);
    let m2 = many.clone();
    fams.push(Family::new("many", many.len() as u64, 1, move |i| format!("{} products", m2[i as usize]), move |i, cx| {
        sys::set_seed(i + 3);
        check(5, &shapes::many(many[i as usize]), cx).map_err(shapes::cut)
    }));
    // very many roots, very many continuations of one character
    let r = [3u64, 2];
    fams.push(Family::new("alphabet", product(&r), 1, move |i| { let d = digits(i, &r); format!("n={} {}", [1, 2, 5][d[0]], shapes::WIDE[6 + d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i + 3);
        check([1, 2, 5][d[0]], &shapes::wide(6 + d[1]), cx).map_err(shapes::cut)
    }));
    // one text, every gram length
    let t1 = strings(&['a', 'b'], 0, tier.pick(10, 12));
    let r = [9, t1.len() as u64];
    push(&mut fams, "one-text", product(&r), 1500, move |i| { let d = digits(i, &r); (d[0] + 1, vec![product_of(0, &t1[d[1]]), product_of(1, "zzzzzzzzzz")]) }, check);
    // two texts
    let t2 = strings(&['a', 'b'], 0, tier.pick(5, 6));
    let k = t2.len() as u64;
    let r = [9, k, k];
    push(&mut fams, "two-texts", product(&r), 4000, move |i| { let d = digits(i, &r); (d[0] + 1, vec![product_of(0, &t2[d[1]]), product_of(1, &t2[d[2]])]) }, check);
    // two texts over three letters
    let t3 = strings(&['a', 'b', 'c'], 0, tier.pick(3, 4));
    let k = t3.len() as u64;
    let r = [4, k, k];
    push(&mut fams, "two-texts-abc", product(&r), 4000, move |i| { let d = digits(i, &r); (d[0] + 1, vec![product_of(0, &t3[d[1]]), product_of(1, &t3[d[2]])]) }, check);
    // three texts
    let t4 = strings(&['a', 'b'], 0, tier.pick(3, 4));
    let k = t4.len() as u64;
    let r = [5, k, k, k];
    push(&mut fams, "three-texts", product(&r), 4000, move |i| { let d = digits(i, &r); (d[0] + 1, d[1..].iter().enumerate().map(|(j, t)| product_of(j, &t4[*t])).collect()) }, check);
    // five texts (80 percent is reached exactly)
    let t5 = strings(&['a', 'b'], 1, 2);
    let k = t5.len() as u64;
    let r = [2, k, k, k, k, k];
    push(&mut fams, "five-texts", product(&r), 4000, move |i| { let d = digits(i, &r); (d[0] + 1, d[1..].iter().enumerate().map(|(j, t)| product_of(j, &t5[*t])).collect()) }, check);
    // every split of a text over the three fields, letters of both cases, characters that lower-case to two
    let t6 = strings(&['a', 'B', 'İ'], 0, tier.pick(5, 6));
    let mut splits = Vec::new();
    for (k, t) in t6.iter().enumerate() {
        let n = t.chars().count();
        for i in 0..=n {
            for j in i..=n {
                splits.push((k, i, j));
            }
        }
    }
    let r = [4, splits.len() as u64];
    push(&mut fams, "field-splits", product(&r), 4000, move |i| {
        let d = digits(i, &r);
        let (k, x, y) = splits[d[1]];
        let c: Vec<char> = t6[k].chars().collect();
        let s = |a: usize, b: usize| c[a..b].iter().collect::<String>();
        (d[0] + 2, vec![P::new("x").desc(&s(0, x)).title(&s(x, y)).vendor(&s(y, c.len())), P::new("y").desc("abi").vendor("bA")])
    }, check);
    // texts that shops really have, every pair of them
    let k = shapes::odd().len() as u64;
    let r = [k, k];
    push(&mut fams, "odd-texts", product(&r), 900, move |i| { let d = digits(i, &r); ([5, 2, 3, 1, 4, 6][(i % 6) as usize], shapes::odd_catalogue(shapes::odd()[d[0]], shapes::odd()[d[1]])) }, check);
    // the 80 percent limit: catalogue size x containing products x repetitions x placement
    let sizes: Vec<usize> = tier.pick((1..=40).chain([50, 64, 75, 99, 100, 101, 125, 200, 255, 256, 257, 300]).collect(), (1..=120).chain([125, 200, 250, 255, 256, 257, 300, 500, 1000]).collect());
    let mut edge = Vec::new();
    for m in sizes {
        let e = m * 4 / 5;
        let cs: Vec<usize> = if m <= 12 { (0..=m).collect() } else { vec![0, 1, m / 2, e.saturating_sub(2), e.saturating_sub(1), e, e + 1, e + 2, m - 1, m] };
        for c in cs {
            if c <= m {
                for reps in 1..=3usize {
                    for place in 0..3usize {
                        edge.push((m, c, reps, place));
                    }
                }
            }
        }
    }
    let edge = Rc::new(edge);
    let e2 = edge.clone();
    let make = move |i: u64| {
        let (m, c, reps, place) = edge[i as usize];
        (5, (0..m)
            .map(|j| {
                let has = match place {
                    0 => j < c,
                    1 => j >= m - c,
                    _ => (j * c) / m != ((j + 1) * c) / m,
                };
                product_of(j, &if has { format!("{}{}", "abcde".repeat(reps), token(j)) } else { token(j) })
            })
            .collect::<Vec<P>>())
    };
    let make = Rc::new(make);
    fams.push(Family::new("80-percent", e2.len() as u64, 40, move |i| { let (m, c, reps, place) = e2[i as usize]; format!("{m} products, gram in {c} of them {reps} times each, placement {place}") }, move |i, cx| {
        let (n, ps) = make(i);
        sys::set_seed(i + 1);
        check(n, &ps, cx)
    }));
    // counters beyond one and two bytes
    let lens = [254usize, 255, 256, 257, 65534, 65535, 65536, 65537, 70000];
    let r = [3, lens.len() as u64];
    fams.push(Family::new("counters", product(&r), 3, move |i| { let d = digits(i, &r); format!("n={} text of {} times 'a'", d[0] + 1, lens[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        check(d[0] + 1, &[product_of(0, &"a".repeat(lens[d[1]])), product_of(1, "abba"), product_of(2, "c")], cx)
    }));
    // structured catalogues
    let sizes: Vec<usize> = tier.pick(vec![2, 3, 5, 10, 40, 127, 129, 257, 300], (0..=60).chain([100, 127, 128, 129, 200, 256, 257, 300, 500, 1000]).collect());
    let r = [2, sizes.len() as u64];
    fams.push(Family::new("structured", product(&r), 3, { let s = sizes.clone(); move |i| { let d = digits(i, &r); format!("n={} structured catalogue of {}", [3, 5][d[0]], s[d[1]]) } }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i + 1);
        check([3, 5][d[0]], &shapes::structured(sizes[d[1]]), cx)
    }));
    // hash seeds
    let r = [tier.pick(60, 400), 3];
    fams.push(Family::new("hash-seeds", product(&r), 60, move |i| { let d = digits(i, &r); format!("seed {} structured catalogue of {}", d[0], [5, 12, 30][d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(1000 + d[0] as u64);
        check(5, &shapes::structured([5, 12, 30][d[1]]), cx)
    }));
    fams
}

pub fn bounds(t: Tier) -> Vec<String> {
    vec![
        t.pick("every text over {a,b} of up to 10 characters, gram lengths 1..9", "every text over {a,b} of up to 12 characters, gram lengths 1..9").into(),
        t.pick("every pair of texts over {a,b} up to 5 characters (gram lengths 1..9) and over {a,b,c} up to 3 (1..4)", "every pair of texts over {a,b} up to 6 characters (gram lengths 1..9) and over {a,b,c} up to 4 (1..4)").into(),
        t.pick("every triple of texts over {a,b} up to 3 characters (1..5)", "every triple of texts over {a,b} up to 4 characters (1..5)").into(),
        "every five texts over {a,b} of 1..2 characters; every split of texts over {a,B,İ} over description/title/vendor".into(),
        t.pick("catalogue sizes 1..40 and selected to 300 x containing products around 80 percent x 1..3 repetitions x 3 placements", "catalogue sizes 1..120 and selected to 1000 x containing products around 80 percent x 1..3 repetitions x 3 placements").into(),
        t.pick("88 000 products, a word in 66 000 of them", "20 000 to 180 000 products").into(),
        "gram lengths 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 127, 128, 130: three texts around the gram length, 20 shapes each".into(),
        format!("all pairs of {} texts as shops have them in every field", shapes::odd().len()),
        "70 000 different characters as roots and as continuations of one character".into(),
        "one character more than 2^24 times; counts around 2^8 and 2^16; structured catalogues; hash seeds".into(),
    ]
}
