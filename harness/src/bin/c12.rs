use std::collections::BTreeSet;
use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

fn check(ps: &[P], orders: bool, cx: &mut Cx) -> Result<(), String> {
    check_with(ps, orders, &(0..ps.len()).map(token).collect::<String>(), cx)
}

/// `all`: a query that finds every product.
fn check_with(ps: &[P], orders: bool, all: &str, cx: &mut Cx) -> Result<(), String> {
    sys::must_load(&sys::image(ps)?)?;
    let s = sys::Session::new()?;
    let cap = ps.len() * 2 + 10;
    let by_id: std::collections::HashMap<&str, &P> = ps.iter().map(|p| (p.id.as_str(), p)).collect();
    let mut order: Vec<Option<&str>> = vec![None];
    if orders {
        order.extend([Some("Alphabetical"), Some("Price high to low")]);
    }
    for o in order {
        let got = guarded(|| {
            let mut r = indexer_lib::search(all, &s.cats, &s.tags, o.map(String::from), &sys::no_filter())?;
            let mut v = Vec::new();
            while v.len() < cap {
                let Some(p) = r.next_product() else { break };
                v.push(p);
            }
            Some(v)
        })?
        .ok_or("a search gives no result")?;
        if ps.len() >= 2 && got.len() != ps.len() {
            return Err(format!("{} of {} products are found by their own text", got.len(), ps.len()));
        }
        let mut seen = BTreeSet::new();
        // every product is asked twice, forwards and then backwards, in different orders of the questions
        for p in got.iter().chain(got.iter().rev()) {
            let id = guarded(|| p.get_id())?;
            let Some(want) = by_id.get(id.as_str()) else { return Err(format!("a product reports the id {id:?} that no product has")) };
            seen.insert(id.clone());
            let (title, desc, price, image) = guarded(|| (p.get_title(), p.get_description(), p.numeric_feature("price"), p.string_feature("image_url")))?;
            let who = || format!("product {id:?}");
            if title != want.title {
                return Err(format!("{} reports the title {title:?} instead of {:?}", who(), want.title));
            }
            if desc != shortened(&want.desc, 100) {
                return Err(format!("{} reports the description {desc:?} instead of {:?}", who(), shortened(&want.desc, 100)));
            }
            if price.map(f64::to_bits) != Some(f64::from(want.price_f32()).to_bits()) {
                return Err(format!("{} reports the price {price:?} instead of {}", who(), want.price));
            }
            match (&image, want.media.first()) {
                (Some(got), Some(w)) if got == w => {}
                (None, None) => {}
                (Some(got), None) if got.is_empty() => {}
                _ => return Err(format!("{} reports the image {image:?}; its own is {:?}", who(), want.media.first())),
            }
            let wrong = guarded(|| {
                let mut w = Vec::new();
                for k in ["image_url", "", "Price", "price ", "title", "image", "æ", "vendor"] {
                    if let Some(v) = p.numeric_feature(k) {
                        w.push(format!("the number {v} for {k:?}"));
                    }
                }
                for k in ["price", "", "Image_url", "image_url ", "title", "æ", "id"] {
                    if let Some(v) = p.string_feature(k) {
                        w.push(format!("the text {v:?} for {k:?}"));
                    }
                }
                w
            })?;
            if let Some(w) = wrong.first() {
                return Err(format!("{} reports {w}", who()));
            }
            cx.state(&(&id, &title, &desc, &image, price.map(f64::to_bits)));
            cx.outcome(&(&title, &image, price.map(f64::to_bits)));
            cx.step(20);
        }
        if seen.len() != got.len() {
            return Err("two found products report the same id".into());
        }
    }
    cx.trace();
    Ok(())
}

const MEDIA: &[&[&str]] = &[&[], &["u1"], &["u2"], &["u2", "u1"], &[""], &["https://cdn/a b?x=\"é\""]];
const PRICES: &[&str] = &["1", "0.1", "-5", "16777217", "0", "-0", "123456.789", "1e-3", "99999999999", "0.30000001192092896", "1.17549435e-38", "1e-45", "3.4028235e38", "00012.50", "+7", "10", "100", "1000", "199.00", "20.", ".5", "1E2", "1e39", "-1e39", "1e-50"];

/// Exact decimal expansion of a finite value.
fn exact(v: f64) -> String {
    format!("{v:.60}").trim_end_matches('0').trim_end_matches('.').to_string()
}

/// For floats of many magnitudes: the middle to the next float written out exactly, just below it and
/// just above it (differing in a late digit).
fn near_halves(tier: Tier) -> Vec<String> {
    let mut out = Vec::new();
    let mut bits: Vec<u32> = Vec::new();
    for exp in (100..=158u32).step_by(tier.pick(3, 1)) {
        for m in [0u32, 1, 2, 3, 0x2A_AAAA, 0x55_5555, 0x7F_FFFD, 0x7F_FFFE, 0x7F_FFFF] {
            bits.push(exp << 23 | m);
        }
    }
    for b in bits {
        let (lo, hi) = (f64::from(f32::from_bits(b)), f64::from(f32::from_bits(b + 1)));
        let mid = (lo + hi) / 2.0; // exact
        let half = exact(mid);
        let (whole, frac) = match half.split_once('.') {
            Some((w, f)) => (w.to_string(), f.to_string()),
            None => (half.clone(), String::new()),
        };
        let above = format!("{whole}.{frac}{}1", "0".repeat(24usize.saturating_sub(frac.len())));
        // below: the last digit one less, followed by nines
        let mut d: Vec<u8> = format!("{whole}{frac}").into_bytes();
        let mut k = d.len();
        while k > 0 {
            k -= 1;
            if d[k] > b'0' {
                d[k] -= 1;
                break;
            }
            d[k] = b'9';
        }
        let d = String::from_utf8(d).unwrap_or_default();
        let below = format!("{}.{}{}", &d[..whole.len()], &d[whole.len()..], "9".repeat(26usize.saturating_sub(frac.len()).max(2)));
        out.extend([half, above, below]);
    }
    out
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let many = tier.pick(vec![88_000usize], vec![180_000, 88_000, 65_537, 17_000]);
    let k = many.len() as u64;
    let m2 = many.clone();
    f.push(Family::new("large", k + 2, 1, move |i| if i < k { format!("{} products", m2[i as usize]) } else { shapes::WIDE[(i - k) as usize + 4].into() }, move |i, cx| {
        sys::set_seed(i + 1);
        if i < k {
            check_with(&shapes::many(many[i as usize]), true, "rundtkantet", cx)
        } else {
            check(&shapes::wide((i - k) as usize + 4), true, cx)
        }
        .map_err(shapes::cut)
    }));
    let mut add = |name: &'static str, radix: Vec<u64>, chunk: u64, orders: bool, make: fn(usize, usize) -> P| {
        let radix = Rc::new(radix);
        let build = move |radix: &[u64], i: u64| -> Vec<P> { digits(i, radix).iter().enumerate().map(|(j, k)| make(j, *k)).collect() };
        let r2 = radix.clone();
        f.push(Family::new(name, product(&radix), chunk, move |i| brief(&build(&r2, i)), move |i, cx| {
            sys::set_seed(i * 3 + 1);
            check(&build(&radix, i), orders, cx)
        }));
    };
    fn base(j: usize) -> P {
        P::new(&format!("id{}", 9 - j)).desc(&token(j))
    }
    add("images-2", vec![6; 2], 36, true, |j, k| MEDIA[k].iter().fold(base(j).title(&format!("t{j}")), |p, m| p.media(m)));
    add("images-3", vec![6; 3], 108, true, |j, k| MEDIA[k].iter().fold(base(j).title(&format!("t{}", 3 - j)).price(&format!("{j}")), |p, m| p.media(m)));
    add("images-4", vec![6; 4], 400, true, |j, k| MEDIA[k].iter().fold(base(j).title(&format!("t{}", j % 2)).price(&format!("{}", 8 - j)), |p, m| p.media(m)));
    add("images-8", vec![2; 8], 64, true, |j, k| MEDIA[k * (1 + j % 3)].iter().fold(base(j).price(&format!("{}", j * 37 % 8)).title(&format!("t{}", j * 5 % 8)), |p, m| p.media(m)));
    add("prices-2", vec![PRICES.len() as u64; 2], 225, false, |j, k| base(j).price(PRICES[k]));
    add("prices-3", vec![PRICES.len() as u64; 3], 1200, false, |j, k| base(j).price(PRICES[k]).title("same"));
    // decimal numbers next to the middle of two neighbouring 32-bit floats
    let near = Rc::new(near_halves(tier));
    let n2 = near.clone();
    f.push(Family::new("prices-near-halves", near.len() as u64 / 3, 100, move |i| format!("prices {:?}", &n2[i as usize * 3..i as usize * 3 + 3]), move |i, cx| {
        let ps: Vec<P> = near[i as usize * 3..i as usize * 3 + 3].iter().enumerate().map(|(j, p)| P::new(&format!("id{}", 9 - j)).desc(&token(j)).price(p)).collect();
        check(&ps, false, cx)
    }));
    let mut add = |name: &'static str, radix: Vec<u64>, chunk: u64, orders: bool, make: fn(usize, usize) -> P| {
        let radix = Rc::new(radix);
        let build = move |radix: &[u64], i: u64| -> Vec<P> { digits(i, radix).iter().enumerate().map(|(j, k)| make(j, *k)).collect() };
        let r2 = radix.clone();
        f.push(Family::new(name, product(&radix), chunk, move |i| brief(&build(&r2, i)), move |i, cx| {
            sys::set_seed(i * 3 + 1);
            check(&build(&radix, i), orders, cx)
        }));
    };
    // equal and different texts, vendors and ids close to each other
    add("texts-3", vec![2 * 2 * 3 * 2; 3], 3500, true, |j, k| {
        let p = base(j).title(["same", &format!("own {j}")][k % 2]).vendor(["v", &format!("w{j}")][k / 2 % 2]);
        let p = p.price(["1", &format!("{j}.25"), "1"][k / 4 % 3]);
        if k / 12 == 1 { p.media(&format!("pic{j}")) } else { p }
    });
    if tier == Tier::Thorough {
        f.push(Family::new("texts-4", 24u64.pow(4), 20000, |i| format!("four products, shape number {i}"), |i, cx| {
            let ps: Vec<P> = digits(i, &[24; 4]).iter().enumerate().map(|(j, k)| {
                let p = base(j).title(["same", &format!("own {j}")][k % 2]).vendor(["v", &format!("w{j}")][k / 2 % 2]).price(["1", &format!("{j}.25"), "1"][k / 4 % 3]);
                if k / 12 == 1 { p.media(&format!("pic{j}")) } else { p }
            }).collect();
            check(&ps, false, cx)
        }));
    }
    let m = shapes::MONEY.len() as u64;
    let r = [m, m, m];
    let pick = Rc::new(move |i: u64| -> Vec<P> { digits(i, &r).iter().enumerate().map(|(j, k)| { let [p, c, max, mc] = shapes::MONEY[*k]; base(j).title(["t", "s"][j % 2]).price(p).money(c, max, mc) }).collect() });
    let p2 = pick.clone();
    f.push(Family::new("currencies", product(&r), 1500, move |i| brief(&pick(i)), move |i, cx| check(&p2(i), true, cx)));
    // texts that shops really have, every pair of them in every field
    let k = shapes::odd().len() as u64;
    let r = [k, k];
    f.push(Family::new("odd-texts", product(&r), 800, move |i| { let d = digits(i, &r); format!("texts {:?} and {:?} in every field", shapes::odd()[d[0]], shapes::odd()[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::odd_catalogue(shapes::odd()[d[0]], shapes::odd()[d[1]]);
        sys::set_seed(i + 1);
        check(&ps, true, cx)
    }));
    // texts of every character width in every field
    let menu = shapes::text_menu();
    let t = menu.len() as u64;
    let r = [t, t, t];
    let pick = Rc::new(move |i: u64| {
        let d = digits(i, &r);
        vec![P::new("a").desc(&format!("{}{}", token(0), menu[d[0]])).title(&menu[d[1]]).vendor(&menu[d[2]]).media(&menu[d[1]]), P::new("b").desc(&format!("{} {}", token(1), menu[d[2]])).title(&menu[d[0]]).media(&menu[d[2]]).media("second"), P::new(&format!("c{}", menu[d[1]])).desc(&token(2)).vendor(&menu[d[0]])]
    });
    let pick2 = pick.clone();
    f.push(Family::new("texts", product(&r), 200, move |i| brief(&pick(i)), move |i, cx| check(&pick2(i), false, cx)));
    let sizes: Vec<usize> = tier.pick(vec![1, 2, 5, 31, 64, 127, 128, 129, 200, 256, 300], (1..=300).step_by(1).collect());
    let r = [sizes.len() as u64, 7, 3];
    let s2 = sizes.clone();
    f.push(Family::new("sizes", product(&r), 10, move |i| { let d = digits(i, &r); format!("{} products, images in every {}th from {}", s2[d[0]], d[1] + 1, d[2]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps: Vec<P> = (0..sizes[d[0]]).map(|j| {
            let p = P::new(&format!("gid/{}", 5000 - j)).desc(&format!("{} text {j}", token(j))).title(&format!("title {}", j * 7 % 300)).vendor(&format!("v{}", j % 11)).price(&format!("{}.{}", j * 31 % 300, j % 10));
            if j >= d[2] && (j - d[2]) % (d[1] + 1) == 0 { p.media(&format!("img {j}")) } else { p }
        }).collect();
        sys::set_seed(i + 1);
        check(&ps, true, cx)
    }));
    let sizes: Vec<usize> = tier.pick(vec![2, 10, 100, 300], (2..=300).step_by(7).collect());
    let s2 = sizes.clone();
    f.push(Family::new("structured", sizes.len() as u64, 1, move |i| format!("structured catalogue of {}", s2[i as usize]), move |i, cx| check(&shapes::structured(sizes[i as usize]), true, cx)));
    f
}

fn main() {
    run(&Spec {
        prop: "C12",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["prices are decimal numbers", "product ids are distinct", "every image address a product reports is its first image's, or nothing/empty if it has none"],
        bounds: |t| vec![
            "all assignments of 6 image lists to 2, 3 and 4 products, all presence patterns of 8 products; all pairs and triples of 25 prices; decimal numbers at, just below and just above the middle of two neighbouring 32-bit floats for 20 (thorough: 59) exponents and 9 mantissas; all triples of equal/different title, vendor, price, image; 12^3 texts of all character widths".into(),
            t.pick("88 000 products; texts of 70 000 bytes; 70 000 images", "17 000 to 180 000 products; texts of 70 000 bytes; 70 000 images").into(),
            t.pick("11 sizes 1..300 x 7 image periods x 3 offsets", "every size 1..300 x 7 image periods x 3 offsets; quadruples of the text shapes").into(),
            format!("all triples of {} prices with currencies and highest prices of all kinds", shapes::MONEY.len()),
            format!("all pairs of {} texts as shops have them (separators, spellings of nothing, markup, addresses, letters that look alike) in every field", shapes::odd().len()),
            "each product read in result order without and with a sort order, forwards and backwards; 8 unknown or wrongly typed features each".into(),
        ],
    })
}
