use colosseum::sync::Arena;
use indexer_lib as ix;
use ix::classic_indexes::{Category, CategoryIndex, CategoryOption, ClassicIndexes, OrderIndex, TagIndex};
use ix::data::{optimize, Product, ProductContainer};
use ix::ngram::{GramIndex, GramNode, IndexFeed};
use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

#[path = "../parts/compare.rs"]
mod compare;

const KEYS: &[&str] = &["price", "image_url", "stock", "note", "Größe", ""];

fn build<const N: usize>(prods: &'static ProductContainer<'static>) -> sys::Gi<N> {
    let iter = prods.products.iter().map(|p| IndexFeed {
        data: p,
        grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
    });
    let arena: &'static Arena<GramNode<'static, char>> = sys::leak(Arena::new());
    GramIndex::index_from(iter, arena, prods)
}

/// save, load, compare; save the loaded one, load, compare.
fn round_trip<const N: usize>(cx: &mut Cx, index: &sys::Gi<N>, classic: &ClassicIndexes<'static>) -> Result<(sys::Gi<N>, ClassicIndexes<'static>), String> {
    let bytes = guarded(|| ix::serialize::serialize_all(index, classic))?;
    let (i2, c2) = sys::must_decode::<N>(&bytes)?;
    compare::gram_index(index, &i2, KEYS)?;
    compare::classic(classic, &c2, &i2.product_container.products)?;
    // (the comparison of the crate visits every node twice per level)
    if N <= 16 && !(*index == i2) {
        return Err("the loaded gram index does not compare equal to the saved one".into());
    }
    let bytes2 = guarded(|| ix::serialize::serialize_all(&i2, &c2))?;
    if bytes2.len() != bytes.len() && index.product_container.products.iter().all(|p| p.description.len() <= 100) {
        return Err(format!("saving the loaded index gives {} bytes instead of {}", bytes2.len(), bytes.len()));
    }
    let (i3, c3) = sys::must_decode::<N>(&bytes2).map_err(|e| format!("second generation: {e}"))?;
    compare::gram_index(&i2, &i3, KEYS).map_err(|e| format!("second generation: {e}"))?;
    compare::classic(&c2, &c3, &i3.product_container.products).map_err(|e| format!("second generation: {e}"))?;
    cx.state(&bytes);
    cx.outcome(&(bytes.len(), i2.data.len(), i2.roots.len()));
    cx.step(4);
    cx.trace();
    Ok((i2, c2))
}

fn catalogue_case<const N: usize>(cx: &mut Cx, ps: &[P]) -> Result<(), String> {
    let raw = sys::raw(ps)?;
    let (prods, classic) = guarded(|| optimize(raw, sys::super_alloc()))?;
    let index = guarded(|| build::<N>(prods))?;
    let (i2, c2) = round_trip::<N>(cx, &index, &classic)?;
    let pc = i2.product_container;
    compare::against_catalogue(ps, &pc.products, &pc.extra_features, &c2)?;
    // and the image the indexer itself writes holds the same
    let bytes = sys::image_n::<N>(ps)?;
    let (i3, c3) = sys::must_decode::<N>(&bytes)?;
    compare::gram_index(&i2, &i3, KEYS).or_else(|e| {
        // children of equal likelihood may be listed in another order by another run
        if e.starts_with("gram tree") {
            Ok(())
        } else {
            Err(format!("image of the indexer: {e}"))
        }
    })?;
    let by_name = |c: &ClassicIndexes<'_>| {
        let mut t: Vec<_> = compare::tags(c, &pc.products).into_iter().map(|(n, _, m)| (n, m)).collect();
        t.sort();
        t
    };
    if compare::cats(&c3, &pc.products) != compare::cats(&c2, &pc.products) || by_name(&c3) != by_name(&c2) || compare::orders(&c3) != compare::orders(&c2) {
        return Err("the image of the indexer holds other categories, tags or orders".into());
    }
    Ok(())
}

fn any_n(cx: &mut Cx, n: usize, ps: &[P]) -> Result<(), String> {
    match n {
        1 => catalogue_case::<1>(cx, ps),
        2 => catalogue_case::<2>(cx, ps),
        3 => catalogue_case::<3>(cx, ps),
        4 => catalogue_case::<4>(cx, ps),
        5 => catalogue_case::<5>(cx, ps),
        6 => catalogue_case::<6>(cx, ps),
        7 => catalogue_case::<7>(cx, ps),
        8 => catalogue_case::<8>(cx, ps),
        9 => catalogue_case::<9>(cx, ps),
        16 => catalogue_case::<16>(cx, ps),
        20 => catalogue_case::<20>(cx, ps),
        32 => catalogue_case::<32>(cx, ps),
        33 => catalogue_case::<33>(cx, ps),
        64 => catalogue_case::<64>(cx, ps),
        127 => catalogue_case::<127>(cx, ps),
        128 => catalogue_case::<128>(cx, ps),
        129 => catalogue_case::<129>(cx, ps),
        _ => catalogue_case::<260>(cx, ps),
    }
}

const LONG_GRAMS: [usize; 9] = [16, 20, 32, 33, 64, 127, 128, 129, 260];

/// Texts around the gram length.
fn long_gram_texts(n: usize, k: usize) -> Vec<P> {
    let over = |unit: &str, len: usize| unit.chars().cycle().take(len).collect::<String>();
    let units = [["ab", "ba"], ["a", "ab"], ["abc", "æ\u{10FFFF}"], ["\u{4E00}", "b"]][k % 4];
    let lens = [[n - 1, n], [n, n + 1], [n + 7, n], [n + 1, 3]][k / 4 % 4];
    vec![P::new("x").desc(&over(units[0], lens[0])).opt("Size", &["S"]).tag("t"), P::new("y").desc(&over(units[1], lens[1])).title("t").media("u"), P::new("z").desc("q").vendor("v")]
}

/// Option/tag/vendor/image shapes of one product.
fn shape(i: usize, s: usize) -> P {
    let p = P::new(&format!("id{i}")).desc(["abab ba", "bab", "Æbab ab"][i % 3]).title(["ab", "", "ba b"][i % 3]).vendor(["v", "v", "w"][i % 3]).price(["1.5", "-2", "0"][i % 3]);
    match s {
        0 => p,
        1 => p.opt("Size", &["S"]).tag("t"),
        2 => p.opt("Color", &["S", "Red"]).media("u1"),
        3 => p.opt("Size", &["M", "S"]).opt("Color", &["Red"]).tag("t").tag("u").media("u2").media("u3"),
        4 => p.opt("Size", &[]).tag("").media(""),
        5 => p.opt("Color", &["Red"]).opt("Size", &["L"]).opt("Color", &["Blue", "Red"]).tag("u").tag("u"),
        6 => p.opt("", &[""]).media("a b").tag("Ærø"),
        _ => p.opt("Material", &["S", "M", "L"]).vendor("").tag("t"),
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut fams = Vec::new();
    // numbers of everything beyond one and two bytes
    let many = tier.pick(vec![66_000usize], vec![140_000, 66_000, 65_536, 16_385]);
    let total = (many.len() + 1 + shapes::WIDE.len()) as u64;
    let m2 = many.clone();
    let label = move |i: u64| match i as usize {
        k if k < m2.len() => format!("{} products", m2[k]),
        k if k == m2.len() => "66 000 vendors".to_string(),
        k => shapes::WIDE[k - m2.len() - 1].to_string(),
    };
    fams.push(Family::new("large", total, 1, label, move |i, cx| {
        let i = i as usize;
        let ps = match i {
            k if k < many.len() => shapes::many(many[k]),
            k if k == many.len() => (0..66_000).map(|j| P::new(&format!("{j}")).desc("abc").vendor(&format!("vendor {j}"))).collect(),
            k => shapes::wide(k - many.len() - 1),
        };
        catalogue_case::<5>(cx, &ps).map_err(|e| shapes::cut(e))
    }));
    let r = [LONG_GRAMS.len() as u64, 16];
    fams.push(Family::new("long-grams", product(&r), 8, move |i| { let d = digits(i, &r); format!("n={}, texts around the gram length, shape {}", LONG_GRAMS[d[0]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i + 1);
        any_n(cx, LONG_GRAMS[d[0]], &long_gram_texts(LONG_GRAMS[d[0]], d[1])).map_err(shapes::cut)
    }));
    let max_n = 9u64;
    // every combination of shapes of up to three products, every gram length
    let k: u64 = 8;
    let radix = [max_n, k + 1, k + 1, k + 1];
    let make = move |i: u64| {
        let d = digits(i, &radix);
        let ps: Vec<P> = d[1..].iter().enumerate().filter(|(_, s)| **s < k as usize).map(|(j, s)| shape(j, *s)).collect();
        (d[0] + 1, ps)
    };
    fams.push(Family::new("shapes", product(&radix), 220, move |i| { let (n, ps) = make(i); format!("n={n} {}", brief(&ps)) }, move |i, cx| {
        let (n, ps) = make(i);
        sys::set_seed(i + 1);
        any_n(cx, n, &ps)
    }));
    // texts of every character width in every field
    let menu = shapes::text_menu();
    let t = menu.len() as u64;
    let radix = [2, t, t, t];
    let menu2 = menu.clone();
    let pick = move |i: u64| {
        let d = digits(i, &radix);
        let n = [2usize, 5][d[0]];
        (n, vec![P::new("a").desc(&menu[d[1]]).title(&menu[d[2]]).vendor(&menu[d[3]]), P::new(&menu2[d[1]]).desc("other").tag(&menu2[d[2]]).opt(&menu2[d[3]], &[&menu2[d[1]]]).media(&menu2[d[2]])])
    };
    let pick2 = pick.clone();
    fams.push(Family::new("texts", product(&radix), 120, move |i| { let (n, ps) = pick(i); format!("n={n} {}", brief(&ps)) }, move |i, cx| {
        let (n, ps) = pick2(i);
        sys::set_seed(i + 1);
        any_n(cx, n, &ps)
    }));
    // NUL characters (which also pad the first windows of a text)
    let all = strings(&['a', '\0'], 0, tier.pick(6, 8));
    let all2 = all.clone();
    let ns = 5u64;
    fams.push(Family::new("nul", all.len() as u64 * ns, 100, move |i| format!("n={} text {:?}", i % ns + 1, all[(i / ns) as usize]), move |i, cx| {
        let t = &all2[(i / ns) as usize];
        sys::set_seed(i + 1);
        any_n(cx, (i % ns) as usize + 1, &[P::new("a").desc(t), P::new("b").desc("bab").title("x"), P::new(t).desc("other").tag(t).opt(t, &[t]).media(t)])
    }));
    // texts that shops really have, every pair of them in every field
    let k = shapes::odd().len() as u64;
    let r = [k, k];
    fams.push(Family::new("odd-texts", product(&r), 400, move |i| { let d = digits(i, &r); format!("texts {:?} and {:?} in every field", shapes::odd()[d[0]], shapes::odd()[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::odd_catalogue(shapes::odd()[d[0]], shapes::odd()[d[1]]);
        sys::set_seed(i + 1);
        any_n(cx, [5, 2, 3, 1][(i % 4) as usize], &ps)
    }));
    // sizes around the boundaries of the length encoding
    let ns: Vec<usize> = tier.pick(vec![1, 5], vec![1, 2, 3, 5, 8]);
    let sizes: Vec<usize> = tier.pick(shapes::SIZES.to_vec(), (0..=300).chain([500, 1000]).collect());
    let radix = [ns.len() as u64, sizes.len() as u64];
    let at = move |i: u64| { let d = digits(i, &radix); (ns[d[0]], sizes[d[1]]) };
    let at2 = at.clone();
    fams.push(Family::new("sizes", product(&radix), 8, move |i| { let (n, s) = at(i); format!("n={n} structured catalogue of {s}") }, move |i, cx| {
        let (n, s) = at2(i);
        sys::set_seed(i + 1);
        any_n(cx, n, &shapes::structured(s))
    }));
    // many distinct values: vendors, tags, options, ids needing two-byte numbers
    let radix = [3u64, 6];
    let counts = [126usize, 127, 128, 129, 200, 260];
    let mk = move |i: u64| {
        let d = digits(i, &radix);
        let n = counts[d[1]];
        (d[0], n, (0..n).map(|j| {
            let p = P::new(&format!("p{j}")).desc("abc").price(&format!("{j}"));
            match d[0] {
                0 => p.vendor(&format!("vendor {j}")),
                1 => p.tag(&format!("tag {j}")).tag(&format!("tag {}", (j + 1) % n)),
                _ => p.opt(&format!("cat {}", j % 3), &[&format!("value {j}"), &format!("value {}", j / 2)]),
            }
        }).collect::<Vec<P>>())
    };
    let mk2 = mk.clone();
    fams.push(Family::new("many-values", product(&radix), 2, move |i| { let (k, n, _) = mk(i); format!("{n} distinct {}", ["vendors", "tags", "options"][k]) }, move |i, cx| {
        let (_, _, ps) = mk2(i);
        catalogue_case::<3>(cx, &ps)
    }));
    // parts the catalogue indexer never produces: exclusive categories, integer features, further orders
    let radix = [2u64, 2, 2, 4, 3, 3];
    fams.push(Family::new("hand-built", product(&radix), 48, move |i| format!("exclusive={:?} features/orders/membership {:?}", &digits(i, &radix)[..2], &digits(i, &radix)[2..]), move |i, cx| {
        let d = digits(i, &radix);
        let np = [1usize, 2, 4][d[4]];
        let ps: Vec<P> = (0..np).map(|j| shape(j, j)).collect();
        let (base, _) = guarded(|| optimize(sys::raw(&ps).unwrap_or_default(), sys::super_alloc()))?;
        let alloc = sys::super_alloc();
        let mut feats = ix::data::FeatureSet::new_empty();
        let products: Vec<Product<'static>> = base.products.iter().enumerate().map(|(k, p)| Product { description: p.description.clone(), title: p.title.clone(), vendor: p.vendor, id: p.id.clone(), serialization_id: k }).collect();
        for k in 0..np {
            feats.add_int("stock", [0, 127, 128, u32::MAX][(k + d[3]) % 4]);
            if d[2] == 1 {
                feats.add_string("note", ["", "æ", "x y"][k % 3].to_string());
                feats.add_float("Größe", [f32::NAN, -0.0, f32::INFINITY, 1.5e-40][(k + d[3]) % 4]);
            }
        }
        let container: &'static ProductContainer<'static> = alloc.alloc(ProductContainer::new(products, base.vendors.clone(), feats));
        let mut cats = Vec::new();
        for c in 0..2 {
            let mut cat = Category::new(format!("c{c}"));
            cat.exclusive = d[c] == 1;
            for o in 0..d[5] {
                let mut opt = CategoryOption::new(format!("o{o}"), c * d[5] + o);
                for (k, p) in container.products.iter().enumerate() {
                    if (k + o + c) % 2 == 0 {
                        opt.add(p);
                    }
                }
                cat.options.push(opt);
            }
            cats.push(cat);
        }
        let tags = TagIndex::index((0..np).map(|k| if k % 2 == 0 { vec!["x"] } else { vec!["x", "y"] }).collect(), container);
        let mut order = OrderIndex::new();
        order.add(container, &|p, _| p.id.clone(), "by id".into());
        if d[2] == 1 {
            order.add_custom_cmp(container, &|p, _| p.serialization_id, &|a, b| b.cmp(a), "reverse".into());
        }
        let classic = ClassicIndexes::new(CategoryIndex(cats), tags, order);
        let index = guarded(|| build::<3>(container))?;
        if d[2] == 1 {
            // NaN never compares equal: compare field by field only
            let bytes = guarded(|| ix::serialize::serialize_all(&index, &classic))?;
            let (i2, c2) = sys::must_decode::<3>(&bytes)?;
            compare::gram_index(&index, &i2, KEYS)?;
            compare::classic(&classic, &c2, &i2.product_container.products)?;
            cx.state(&bytes);
            cx.step(2);
            cx.trace();
            Ok(())
        } else {
            round_trip::<3>(cx, &index, &classic).map(|_| ())
        }
    }));
    fams
}

fn main() {
    run(&Spec {
        prop: "C01",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["prices are decimal numbers", "the wasm boundary is replaced by native stand-ins (stubs/)"],
        bounds: |t| vec![
            "gram lengths 16, 20, 32, 33, 64, 127, 128, 129, 260: three texts around the gram length, 16 shapes each".into(),
            "all catalogues of 0..3 products over 8 product shapes, gram lengths 1..9".into(),
            "12^3 combinations of texts of all character widths in description/title/vendor, tag, option, image, id; gram lengths 2 and 5".into(),
            t.pick("catalogue sizes around 2^k and 128/256 up to 300", "every catalogue size 0..300, 500, 1000").into(),
            t.pick("66 000 products, vendors, tags; 66 560 options; 17 000 categories; texts of 70 000 bytes", "16 385 to 140 000 products; 66 000 vendors, tags; 66 560 options; 17 000 categories; texts of 70 000 bytes").into(),
            format!("all pairs of {} texts as shops have them (separators, spellings of nothing, markup, addresses, letters that look alike) in every field", shapes::odd().len()),
            "126..260 distinct vendors, tags or options; hand-built exclusive categories, integer/text/float features (NaN, infinities), further orders".into(),
        ],
    })
}
