use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

const ORDERS: [&str; 3] = ["Alphabetical", "Price high to low", "Price low to high"];

fn in_order(a: &P, b: &P, order: &str) -> std::cmp::Ordering {
    let price = |p: &P| p.price_f32();
    match order {
        "Alphabetical" => a.title.chars().cmp(b.title.chars()),
        "Price low to high" => price(a).partial_cmp(&price(b)).unwrap_or(std::cmp::Ordering::Equal),
        _ => price(b).partial_cmp(&price(a)).unwrap_or(std::cmp::Ordering::Equal),
    }
}

fn sorted(ps: &[P], order: &str, among: &[usize]) -> Vec<usize> {
    let mut v = among.to_vec();
    v.sort_unstable();
    // stable: catalogue order among equals
    v.sort_by(|a, b| in_order(&ps[*a], &ps[*b], order));
    v
}

fn check(ps: &[P], queries: &[String], cx: &mut Cx) -> Result<(), String> {
    let bytes = sys::image(ps)?;
    sys::must_load(&bytes)?;
    let s = sys::Session::new()?;
    let offered = sys::orders()?.ok_or("no orders are offered although an index is loaded")?;
    if offered != ORDERS {
        return Err(format!("the offered orders are {offered:?}"));
    }
    let cap = ps.len() * 2 + 10;
    for q in queries {
        let plain = s.ids(q, None, &sys::no_filter(), cap)?.ok_or("a search without an order gives no result")?;
        let among = sys::positions(ps, &plain)?;
        for o in ORDERS {
            let got = s.ids(q, Some(o), &sys::no_filter(), cap)?.ok_or_else(|| format!("searching {q:?} with the offered order {o:?} gives no result"))?;
            let got = sys::positions(ps, &got)?;
            let want = sorted(ps, o, &among);
            if got != want {
                return Err(format!("searching {q:?} with {o:?} returns products {got:?} instead of {want:?}"));
            }
            cx.state(&(o, &got));
            cx.outcome(&got);
            cx.step(1);
        }
        for o in ["", "alphabetical", "Alphabetical ", "Price", "price", "Price low to hig", "id"] {
            if let Some(v) = s.ids(q, Some(o), &sys::no_filter(), cap)? {
                return Err(format!("searching {q:?} with the unknown order {o:?} gives a result of {} products", v.len()));
            }
            cx.step(1);
        }
        // asking for an unknown order changes nothing
        let again = s.ids(q, None, &sys::no_filter(), cap)?.ok_or("a search without an order gives no result")?;
        if again.len() != plain.len() {
            return Err(format!("searching {q:?} again returns {} products instead of {}", again.len(), plain.len()));
        }
    }
    // the ranks of the decoded index
    let (_, c) = sys::must_decode::<5>(&bytes)?;
    let all: Vec<usize> = (0..ps.len()).collect();
    for o in ORDERS {
        let ranks = c.order.get_orders(o).ok_or_else(|| format!("the image lacks the order {o:?}"))?;
        let want = sorted(ps, o, &all);
        let mut by_rank = ranks.clone();
        by_rank.sort_unstable();
        if ranks.len() != ps.len() || by_rank.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("{o:?}: the ranks {ranks:?} are not one distinct rank per product"));
        }
        let mut got = all.clone();
        got.sort_by_key(|i| ranks[*i]);
        if got != want {
            return Err(format!("{o:?} ranks the products {got:?} instead of {want:?}"));
        }
    }
    cx.trace();
    Ok(())
}

const TITLES: &[&str] = &["b", "a", "B", "", "aa", "Æ", "é", "Ø x", "\u{FFFF}", "\u{10000}", " a", "10", "9"];
const PRICES: &[&str] = &["1", "1.00", "-1", "0.5", "10", "9", "0", "-0", "1e3", "16777216", "16777217", "0.1", "0.10000000149", "99.95", "3.5e38"];

const CLOSE: &[&str] = &[
    "0.001", "0.002", "0.0049", "0.005", "0.994", "0.999", "1.0004", "1.004", "1.0049", "1.005", "1.25", "1.2500001", "1.2500002", "1.5", "1.999", "2", "2.0000002", "99.994", "99.995", "100", "100.00001", "65535.5", "65536", "65536.01",
    "123456.78", "123456.79", "16777215", "16777216", "16777218", "4294967295", "4294967296", "1e10", "1.0000001e10", "1e18", "2e19", "1e38", "1e-7", "2e-7", "1e-40", "2e-40", "-0.001", "-0.002", "-1.004", "-1.0049", "-1e-40", "0", "-0",
];

fn make(d: &[(usize, usize)]) -> Vec<P> {
    d.iter().enumerate().map(|(i, (t, p))| P::new(&format!("id{}", 7 - i)).desc(&token(i)).title(TITLES[*t]).price(PRICES[*p])).collect()
}

fn queries(n: usize) -> Vec<String> {
    let mut q = vec![(0..n).map(token).collect::<String>(), (0..n).rev().map(token).collect::<String>()];
    if n > 2 {
        q.push(format!("{}{}", token(n - 1), token(0)));
    }
    q.push("zzzzz".into());
    q
}

fn fam(fams: &mut Vec<Family>, name: &'static str, radix: Vec<u64>, chunk: u64, pick: impl Fn(&[usize]) -> Vec<(usize, usize)> + 'static) {
    let pick = Rc::new(pick);
    let (p2, r2) = (pick.clone(), radix.clone());
    fams.push(Family::new(name, product(&radix), chunk, move |i| brief(&make(&p2(&digits(i, &r2)))), move |i, cx| {
        let ps = make(&pick(&digits(i, &radix)));
        sys::set_seed(i + 1);
        check(&ps, &queries(ps.len()), cx)
    }));
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let many = tier.pick(vec![88_000usize], vec![180_000, 88_000, 65_537, 17_000]);
    let m2 = many.clone();
    f.push(Family::new("many", many.len() as u64, 1, move |i| format!("{} products", m2[i as usize]), move |i, cx| {
        let n = many[i as usize];
        let ps = shapes::many(n);
        sys::set_seed(i + 1);
        let code = |i: usize| ps[i].desc.chars().take(5).collect::<String>();
        let q = ["rundt".to_string(), "kantetrundt".into(), (0..n).rev().step_by(n / 50).map(code).collect()];
        check(&ps, &q, cx).map_err(shapes::cut)
    }));
    // prices that are close to each other, titles that differ late
    let np = CLOSE.len() as u64;
    let r = [np, np, 2];
    f.push(Family::new("close-prices", product(&r), 300, move |i| { let d = digits(i, &r); format!("prices {} and {}{}", CLOSE[d[0]], CLOSE[d[1]], ["", " and 1.25"][d[2]]) }, move |i, cx| {
        let d = digits(i, &r);
        let mut ps = vec![P::new("a").desc(&token(0)).title("t").price(CLOSE[d[0]]), P::new("b").desc(&token(1)).title("t").price(CLOSE[d[1]])];
        if d[2] == 1 {
            ps.insert(1, P::new("c").desc(&token(2)).title("s").price("1.25"));
        }
        sys::set_seed(i + 1);
        check(&ps, &queries(ps.len()), cx)
    }));
    let m = shapes::MONEY.len() as u64;
    let r = [m, m, 2];
    let pick = Rc::new(move |i: u64| -> Vec<P> {
        let d = digits(i, &r);
        let one = |j: usize, k: usize| { let [p, c, max, mc] = shapes::MONEY[k]; P::new(&format!("{}", 7 - j)).desc(&token(j)).title("t").price(p).money(c, max, mc) };
        if d[2] == 0 { vec![one(0, d[0]), one(1, d[1])] } else { vec![one(0, d[0]), one(1, 0), one(2, d[1]), one(3, 19)] }
    });
    let p2 = pick.clone();
    f.push(Family::new("currencies", product(&r), 200, move |i| brief(&pick(i)), move |i, cx| {
        sys::set_seed(i + 1);
        let ps = p2(i);
        check(&ps, &queries(ps.len()), cx)
    }));
    // texts that shops really have, every pair of them in every field
    let k = shapes::odd().len() as u64;
    let r = [k, k];
    f.push(Family::new("odd-texts", product(&r), 800, move |i| { let d = digits(i, &r); format!("texts {:?} and {:?} in every field", shapes::odd()[d[0]], shapes::odd()[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::odd_catalogue(shapes::odd()[d[0]], shapes::odd()[d[1]]);
        sys::set_seed(i + 1);
        check(&ps, &queries(4), cx)
    }));
    let lens: Vec<usize> = tier.pick(vec![1, 7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 101, 127, 128, 255, 256, 1023, 65_535, 65_536], (1..=300).chain([511, 512, 1023, 1024, 4095, 4096, 65_535, 65_536, 1 << 20]).collect());
    let r = [lens.len() as u64, 5];
    let l2 = lens.clone();
    f.push(Family::new("long-titles", product(&r), 20, move |i| { let d = digits(i, &r); format!("titles with {} common characters (kind {})", l2[d[0]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        let common = ["x", "é", " ", "\u{1F47D}", "ab"][d[1]].repeat(lens[d[0]]);
        let ps: Vec<P> = ["b", "a", "", "ab", "é", "B"].iter().enumerate().map(|(k, e)| P::new(&format!("{k}")).desc(&token(k)).title(&format!("{common}{e}"))).collect();
        sys::set_seed(i + 1);
        check(&ps, &queries(ps.len()), cx).map_err(shapes::cut)
    }));
    let (t, p) = (TITLES.len() as u64, PRICES.len() as u64);
    fam(&mut f, "two", vec![t, p, t, p], 1200, |d| vec![(d[0], d[1]), (d[2], d[3])]);
    fam(&mut f, "titles-3", vec![t, t, t], 300, |d| vec![(d[0], 0), (d[1], 1), (d[2], 0)]);
    fam(&mut f, "prices-3", vec![p, p, p], 300, |d| vec![(0, d[0]), (0, d[1]), (1, d[2])]);
    let (a, b) = tier.pick((3, 3), (4, 5));
    fam(&mut f, "three", vec![a, b, a, b, a, b], 400, |d| vec![(d[0], d[1]), (d[2], d[3]), (d[4], d[5])]);
    let (a, b) = tier.pick((5, 5), (9, 9));
    fam(&mut f, "titles-4", vec![a; 4], 300, |d| d.iter().map(|x| (*x, 0)).collect());
    fam(&mut f, "prices-4", vec![b; 4], 300, |d| d.iter().map(|x| (0, *x)).collect());
    fam(&mut f, "both-4", vec![2, 2, 2, 2, 3, 3, 3, 3], 500, |d| (0..4).map(|k| (d[k], d[4 + k])).collect());
    fam(&mut f, "five", vec![3; 5], 100, |d| d.iter().enumerate().map(|(k, x)| (*x, (*x + k) % 3)).collect());
    let sizes: Vec<usize> = tier.pick(vec![0, 1, 2, 3, 10, 20, 21, 33, 50, 127, 128, 129, 150, 200, 255, 256, 257, 300], (0..=300).chain([511, 512, 1000, 5000]).collect());
    let kinds = 4u64;
    let r = [sizes.len() as u64, kinds];
    let s2 = sizes.clone();
    let name = ["structured", "all keys equal", "falling keys", "two alternating keys"];
    f.push(Family::new("sizes", product(&r), 2, move |i| { let d = digits(i, &r); format!("{} products, {}", s2[d[0]], name[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let n = sizes[d[0]];
        let ps: Vec<P> = match d[1] {
            0 => shapes::structured(n),
            1 => (0..n).map(|j| P::new(&format!("{j}")).desc(&token(j)).title("same")).collect(),
            2 => (0..n).map(|j| P::new(&format!("{j}")).desc(&token(j)).title(&format!("{:05}", n - j)).price(&format!("{}", n - j))).collect(),
            _ => (0..n).map(|j| P::new(&format!("{j}")).desc(&token(j)).title(["x", "X"][j % 2]).price(["2", "1.5"][j % 2])).collect(),
        };
        sys::set_seed(i + 1);
        let upto = n.min(300);
        let mut q = vec![(0..upto).map(token).collect::<String>(), (0..upto).step_by(3).map(token).collect::<String>(), "red circle".into()];
        if n > 0 {
            q.push(format!("{}{}", token(n - 1), token(0)));
        }
        check(&ps, &q, cx)
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C09",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["prices are decimal numbers (no NaN); titles compare character by character", "product ids are distinct"],
        bounds: |t| vec![
            format!("all pairs of products over {} titles x {} prices; all triples of titles; all triples of prices", TITLES.len(), PRICES.len()),
            t.pick("all pairs of 47 prices that are close to each other; titles with 1 to 65 536 common characters", "all pairs of 47 prices that are close to each other; titles with 1 to 2^20 common characters").into(),
            format!("all pairs of {} texts as shops have them (separators, spellings of nothing, markup, addresses, letters that look alike) in every field", shapes::odd().len()),
            format!("all pairs of {} prices with currencies and highest prices of all kinds, alone and between two others", shapes::MONEY.len()),
            t.pick("all triples over 3 titles x 3 prices, all quadruples of 5 titles, of 5 prices, of 2x3; quintuples", "all triples over 4x5, all quadruples of 9 titles, of 9 prices, of 2x3; quintuples").into(),
            t.pick("88 000 products", "17 000 to 180 000 products").into(),
            t.pick("18 catalogue sizes 0..300 x 4 key patterns", "every catalogue size 0..300 and 511, 512, 1000, 5000 x 4 key patterns").into(),
        ],
    })
}
