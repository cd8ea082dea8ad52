//! C23: an index part built step by step holds exactly what was put into it.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

use indexer_lib as ix;
use ix::classic_indexes::{Category, CategoryIndex, CategoryOption, ClassicIndexes, OrderIndex, Tag, TagIndex};
use ix::data::{optimize, Feature, FeatureSet, FeatureValue, Product, ProductContainer};
use ix::js_interactable::ProductProducer;
use ix::serialize::{Deserializable, Serializable};
use vharness::engine::*;
use vharness::model::*;
use vharness::sys;

fn container(ps: &[P]) -> Result<&'static ProductContainer<'static>, String> {
    let raw = sys::raw(ps)?;
    guarded(|| optimize(raw, sys::super_alloc()).0)
}

fn bytes_of(t: &impl Serializable) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    guarded(|| t.serialize(&mut |b| out.push(b)))?;
    Ok(out)
}

/// A container of its own, as it comes from its bytes.
fn owned(ps: &[P]) -> Result<ProductContainer<'static>, String> {
    let bytes: &'static [u8] = sys::leak(bytes_of(container(ps)?)?);
    reload(bytes)
}

fn reload(bytes: &'static [u8]) -> Result<ProductContainer<'static>, String> {
    let got = guarded(|| ProductContainer::deserialize(bytes, sys::super_alloc()))?;
    match got {
        Some((rest, c)) if rest.is_empty() => Ok(c),
        Some((rest, _)) => Err(format!("{} bytes are left after loading the container", rest.len())),
        None => Err("the saved container is refused".into()),
    }
}

// ---- vendors -----------------------------------------------------------------------------------

fn vendors_are(c: &'static ProductContainer<'static>, names: &[String], what: &str) -> Result<(), String> {
    let v: &'static _ = &c.vendors;
    let got: Vec<(usize, &str)> = v.by_id.iter().map(|v| (v.id, v.name.as_str())).collect();
    let want: Vec<(usize, &str)> = names.iter().enumerate().map(|(i, n)| (i, n.as_str())).collect();
    if got != want {
        return Err(format!("{what}: the vendors are {:?} instead of {:?}", &got[..got.len().min(9)], &want[..want.len().min(9)]));
    }
    for (i, n) in names.iter().enumerate() {
        match guarded(|| v.get(n))? {
            Some(f) if f.id == i && f.name == *n && std::ptr::eq(f, v.by_id[i]) => {}
            other => return Err(format!("{what}: the vendor {n:?} is found as {other:?}")),
        }
    }
    for unknown in ["nobody", "One", "one ", "\u{e9}\u{301}"] {
        if !names.iter().any(|n| n == unknown) && guarded(|| v.get(unknown))?.is_some() {
            return Err(format!("{what}: the vendor {unknown:?} is found"));
        }
    }
    Ok(())
}

fn vendors(known: &[&str], steps: &[String], last: Option<&str>, cx: &mut Cx) -> Result<(), String> {
    let ps: Vec<P> = known.iter().enumerate().map(|(i, v)| P::new(&format!("p{i}")).vendor(v)).collect();
    let mut c = owned(&ps)?;
    let mut names: Vec<String> = Vec::new();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut add = |n: &str, names: &mut Vec<String>| {
        if seen.insert(n.to_string()) {
            names.push(n.to_string());
        }
    };
    for k in known {
        add(k, &mut names);
    }
    {
        let Some(v) = Arc::get_mut(&mut c.vendors) else { return Err("the vendors of a loaded container are shared".into()) };
        for s in steps {
            guarded(|| v.insert(s))?;
            add(s, &mut names);
            if v.by_id.len() != names.len() {
                return Err(format!("after adding {s:?} there are {} vendors instead of {}", v.by_id.len(), names.len()));
            }
            cx.step(1);
        }
    }
    let c: &'static mut ProductContainer<'static> = Box::leak(Box::new(c));
    let p: *mut ProductContainer<'static> = c;
    if let Some(last) = last {
        // SAFETY: the mutable reference is not used after the vendor has been returned
        let v = Arc::get_mut(unsafe { &mut (*p).vendors }).ok_or("the vendors are shared")?;
        let got = guarded(|| v.get_or_insert(last))?;
        add(last, &mut names);
        let want = names.iter().position(|n| n == last);
        if got.name != last || Some(got.id) != want {
            return Err(format!("asking for the vendor {last:?}, adding it if needed, gives {got:?} instead of number {want:?}"));
        }
    }
    // SAFETY: no mutable reference is in use any more
    let c: &'static ProductContainer<'static> = unsafe { &*p };
    vendors_are(c, &names, "built")?;
    for (i, q) in c.products.iter().enumerate() {
        if q.vendor.name != known[i] {
            return Err(format!("product {i} has the vendor {:?}", q.vendor));
        }
    }
    let again: &'static ProductContainer<'static> = sys::leak(reload(sys::leak(bytes_of(c)?))?);
    vendors_are(again, &names, "saved and loaded")?;
    cx.state(&(known, &names));
    cx.outcome(&(names.len().min(8), steps.len().min(8)));
    cx.trace();
    Ok(())
}

// ---- features ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Value {
    Int(u32),
    Float(f32),
    Text(&'static str),
}

impl Value {
    fn kind(self) -> usize {
        match self {
            Value::Int(_) => 0,
            Value::Float(_) => 1,
            Value::Text(_) => 2,
        }
    }
    fn is(self, v: &FeatureValue<'_>) -> bool {
        match (self, v) {
            (Value::Int(a), FeatureValue::Integer(b)) => a == *b,
            (Value::Float(a), FeatureValue::Float(b)) => a.to_bits() == b.to_bits(),
            (Value::Text(a), FeatureValue::String(b)) => a == *b,
            _ => false,
        }
    }
}

const NAMES: [&str; 3] = ["price", "Price", "é"];
const VALUES: [[Value; 2]; 3] = [[Value::Int(0), Value::Int(u32::MAX)], [Value::Float(-0.0), Value::Float(1.5)], [Value::Text(""), Value::Text("1.5")]];

type Columns = BTreeMap<&'static str, Vec<Value>>;

fn show(v: Option<FeatureValue<'_>>) -> String {
    match v {
        None => "nothing".into(),
        Some(FeatureValue::Integer(n)) => format!("the integer {n}"),
        Some(FeatureValue::Float(n)) => format!("the float {n:?}"),
        Some(FeatureValue::String(s)) => format!("the text {s:?}"),
    }
}

fn features_are(f: &FeatureSet, want: &Columns, vendor: &'static ix::data::Product<'static>, what: &str) -> Result<(), String> {
    for name in NAMES.into_iter().chain(["", "pric", "e\u{301}"]) {
        let column = want.get(name);
        if f.get_feature(name).is_some() != column.is_some() {
            return Err(format!("{what}: the feature {name:?} is {}there", if column.is_some() { "not " } else { "" }));
        }
        let rows = column.map_or(0, Vec::len);
        for i in 0..rows + 2 {
            let w = column.and_then(|c| c.get(i).copied());
            let p = Product { description: String::new(), title: String::new(), vendor: vendor.vendor, id: "x".into(), serialization_id: i };
            let by_product = guarded(|| f.get(&p, name).map_or((false, "nothing".to_string()), |v| (w.is_some_and(|w| w.is(&v)), show(Some(v)))))?;
            let by_number = guarded(|| f.get_feature(name).and_then(|c: &Feature| c.get(i)).map_or((false, "nothing".to_string()), |v| (w.is_some_and(|w| w.is(&v)), show(Some(v)))))?;
            for (ok, got) in [by_product, by_number] {
                if ok != w.is_some() || (w.is_none() && got != "nothing") {
                    return Err(format!("{what}: value {i} of {name:?} is {got} instead of {w:?}"));
                }
            }
            let js = guarded(|| f.get_js(&p, name))?;
            let right = match (w, &js) {
                (None, None) => true,
                (Some(Value::Text(t)), Some(j)) => j.as_string().as_deref() == Some(t),
                (Some(Value::Int(n)), Some(j)) => j.as_f64() == Some(f64::from(n)),
                (Some(Value::Float(n)), Some(j)) => j.as_f64().map(f64::to_bits) == Some(f64::from(n).to_bits()),
                _ => false,
            };
            if !right {
                return Err(format!("{what}: value {i} of {name:?} is exported as {js:?} instead of {w:?}"));
            }
        }
    }
    Ok(())
}

fn add_feature(f: &mut FeatureSet, name: &str, v: Value) -> Result<(), String> {
    let cell = std::panic::AssertUnwindSafe(f);
    guarded(move || {
        let f = cell;
        match v {
            Value::Int(n) => f.0.add_int(name, n),
            Value::Float(n) => f.0.add_float(name, n),
            Value::Text(t) => f.0.add_string(name, t.to_string()),
        }
    })
}

/// What the products of a result with these features report.
fn reported(f: FeatureSet, want: &Columns, one: &'static ProductContainer<'static>) -> Result<(), String> {
    let rows = want.values().map(Vec::len).max().unwrap_or(0) + 1;
    let products = (0..rows).map(|i| Product { description: String::new(), title: String::new(), vendor: one.products[0].vendor, id: i.to_string(), serialization_id: i }).collect();
    let c: &'static ProductContainer<'static> = sys::leak(ProductContainer::new(products, one.vendors.clone(), f));
    let mut cursor = ProductProducer::new(c, (0..rows).rev().collect());
    for i in (0..rows).rev() {
        let Some(p) = guarded(std::panic::AssertUnwindSafe(|| cursor.next_product()))? else { return Err(format!("product {i} is not in the result")) };
        for name in NAMES.into_iter().chain([""]) {
            let w = want.get(name).and_then(|c| c.get(i).copied());
            let (number, text) = guarded(std::panic::AssertUnwindSafe(|| (p.numeric_feature(name), p.string_feature(name))))?;
            let right = match w {
                None => number.is_none() && text.is_none(),
                Some(Value::Int(n)) => number == Some(f64::from(n)) && text.is_none(),
                Some(Value::Float(n)) => number.map(f64::to_bits) == Some(f64::from(n).to_bits()) && text.is_none(),
                Some(Value::Text(t)) => number.is_none() && text.as_deref() == Some(t),
            };
            if !right {
                return Err(format!("product {i} reports {number:?} and {text:?} as {name:?} instead of {w:?}"));
            }
        }
    }
    Ok(())
}

fn features(steps: &[(usize, usize, usize)], cx: &mut Cx) -> Result<(), String> {
    thread_local!(static ONE: &'static ProductContainer<'static> = container(&[P::new("x")]).unwrap_or_else(|e| panic!("{e}")));
    let any: &'static Product<'static> = ONE.with(|c| &c.products[0]);
    let mut f = FeatureSet::new_empty();
    let mut model = Columns::new();
    features_are(&f, &model, any, "empty")?;
    for (k, (name, kind, value)) in steps.iter().enumerate() {
        let (name, v) = (NAMES[*name], VALUES[*kind][*value]);
        let fits = model.get(name).is_none_or(|c| c[0].kind() == v.kind());
        let got = add_feature(&mut f, name, v);
        if got.is_ok() != fits {
            return Err(format!("step {k}: adding {v:?} to {name:?} is {}", if fits { "refused" } else { "accepted though the feature is of another type" }));
        }
        if fits {
            model.entry(name).or_default().push(v);
        }
        features_are(&f, &model, any, &format!("after step {k}"))?;
        cx.step(1);
    }
    let bytes = bytes_of(&f)?;
    match guarded(|| FeatureSet::deserialize(&bytes).map(|(r, f)| (r.len(), f)))? {
        Some((0, g)) => {
            features_are(&g, &model, any, "saved and loaded")?;
            reported(g, &model, ONE.with(|c| *c))?;
        }
        other => return Err(format!("saving and loading fails ({:?} bytes left)", other.map(|o| o.0))),
    }
    cx.state(&format!("{model:?}"));
    cx.outcome(&(model.len(), model.values().map(Vec::len).max()));
    cx.trace();
    Ok(())
}

// ---- options, categories, tags, orders ---------------------------------------------------------

fn many(n: usize) -> Result<&'static ProductContainer<'static>, String> {
    container(&(0..n).map(|i| P::new(&format!("p{i}"))).collect::<Vec<_>>())
}

fn save_and_load(classic: &ClassicIndexes<'static>, c: &'static ProductContainer<'static>) -> Result<ClassicIndexes<'static>, String> {
    let bytes: &'static [u8] = sys::leak(bytes_of(classic)?);
    match guarded(|| ClassicIndexes::deserialize(bytes, c))? {
        Some((rest, got)) if rest.is_empty() => Ok(got),
        Some((rest, _)) => Err(format!("{} bytes are left after loading", rest.len())),
        None => Err("the saved categories, tags and orders are refused".into()),
    }
}

fn no_tags(c: &'static ProductContainer<'static>) -> TagIndex<'static> {
    TagIndex::index(Vec::new(), c)
}

/// Each product is added to one of the options in turn.
fn options(steps: &[(usize, usize)], numbers: &[usize], exclusive: [bool; 2], cx: &mut Cx) -> Result<(), String> {
    thread_local!(static MANY: &'static ProductContainer<'static> = many(301).unwrap_or_else(|e| panic!("{e}")));
    let c = MANY.with(|c| *c);
    let mut made = Vec::new();
    let mut model: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); 3];
    for k in 0..3 {
        made.push(CategoryOption::new(["S", "M", "S"][k].to_string(), k));
    }
    for (o, p) in steps {
        guarded(std::panic::AssertUnwindSafe(|| made[*o].add(&c.products[numbers[*p]])))?;
        model[*o].insert(numbers[*p]);
        cx.step(1);
    }
    let holds = |o: &CategoryOption<'_>, want: &BTreeSet<usize>, what: &str| -> Result<(), String> {
        for p in &c.products {
            if (numbers.contains(&p.serialization_id) || p.serialization_id < 4 || p.serialization_id > 296) && guarded(|| o.contains(p))? != want.contains(&p.serialization_id) {
                return Err(format!("{what}: the option {:?} number {} {} product {}", o.name, o.serialization_id, if want.contains(&p.serialization_id) { "lacks" } else { "contains" }, p.serialization_id));
            }
        }
        Ok(())
    };
    for (o, want) in made.iter().zip(&model) {
        holds(o, want, "built")?;
    }
    let (mut size, mut color) = (Category::new("Size".into()), Category::new("Color".into()));
    size.exclusive = exclusive[0];
    color.exclusive = exclusive[1];
    let third = made.pop();
    size.options = made;
    color.options.extend(third);
    let classic = ClassicIndexes::new(CategoryIndex(vec![size, color, Category::new("Empty".into())]), no_tags(c), OrderIndex::new());
    let loaded: &'static ClassicIndexes<'static> = sys::leak(save_and_load(&classic, c)?);
    let mut k = 0;
    for (i, (name, options)) in [("Size", vec!["S", "M"]), ("Color", vec!["S"])].into_iter().enumerate() {
        let Some(cat) = guarded(|| loaded.categories.get(i))? else { return Err(format!("category {i} is lost")) };
        if cat.name != name || cat.exclusive != exclusive[i] || cat.options.iter().map(|o| o.name.as_str()).collect::<Vec<_>>() != options || !std::ptr::eq(cat, &loaded.categories[i]) {
            return Err(format!("category {i} is {:?}, exclusive: {}, with {} options", cat.name, cat.exclusive, cat.options.len()));
        }
        for o in &cat.options {
            if o.serialization_id != k {
                return Err(format!("option {k} has the number {}", o.serialization_id));
            }
            holds(o, &model[k], "saved and loaded")?;
            k += 1;
        }
    }
    if !guarded(|| [&loaded.categories, &classic.categories].into_iter().all(|c| c.get(2).is_some_and(|c| c.name == "Empty" && c.options.is_empty() && !c.exclusive)))? {
        return Err("the category without options is lost".into());
    }
    if loaded.categories.get(3).is_some() || loaded.categories.get(usize::MAX).is_some() {
        return Err("there is a fourth category".into());
    }
    if !guarded(|| *loaded == classic)? && model.iter().all(|m| m.len() < 2) {
        return Err("the loaded categories do not compare equal to the saved ones".into());
    }
    cx.state(&(steps, exclusive));
    cx.outcome(&model.iter().map(BTreeSet::len).collect::<Vec<_>>());
    cx.trace();
    Ok(())
}

fn tags(lists: &[Vec<&'static str>], cx: &mut Cx) -> Result<(), String> {
    let c = many(lists.len() + 1)?;
    let mut model: BTreeMap<&str, BTreeSet<usize>> = BTreeMap::new();
    for (i, l) in lists.iter().enumerate() {
        for t in l {
            model.entry(t).or_default().insert(i);
        }
    }
    let l2 = lists.to_vec();
    let index = guarded(|| TagIndex::index(l2, c))?;
    let classic: &'static ClassicIndexes<'static> = sys::leak(ClassicIndexes::new(CategoryIndex(Vec::new()), index, OrderIndex::new()));
    let check = |t: &'static TagIndex<'static>, what: &str| -> Result<Vec<String>, String> {
        let all: Vec<&'static Tag<'static>> = guarded(|| t.iter().collect())?;
        let names: BTreeSet<&str> = all.iter().map(|t| t.name.as_str()).collect();
        if names.len() != all.len() || names != model.keys().copied().collect() {
            return Err(format!("{what}: the tags are {:?}", all.iter().map(|t| &t.name).collect::<Vec<_>>()));
        }
        for (i, tag) in all.iter().enumerate() {
            if tag.get_id() != i || !guarded(|| t.get(i))?.is_some_and(|g| std::ptr::eq(g, *tag)) {
                return Err(format!("{what}: tag {i} says it is number {} or is not found under it", tag.get_id()));
            }
            for p in &c.products {
                let want = model[tag.name.as_str()].contains(&p.serialization_id);
                if guarded(|| tag.contains(p))? != want {
                    return Err(format!("{what}: tag {:?} {} product {}", tag.name, if want { "lacks" } else { "contains" }, p.serialization_id));
                }
            }
            // a tag made by hand from the same products
            let mine: Vec<&'static Product<'static>> = c.products.iter().filter(|p| model[tag.name.as_str()].contains(&p.serialization_id)).collect();
            let by_hand = guarded(|| Tag::new(&tag.name, mine, i + 70_000))?;
            if by_hand.name != tag.name || by_hand.get_id() != i + 70_000 || c.products.iter().any(|p| by_hand.contains(p) != tag.contains(p)) {
                return Err(format!("{what}: tag {:?} made by hand differs", tag.name));
            }
        }
        if t.get(all.len()).is_some() || t.get(usize::MAX).is_some() {
            return Err(format!("{what}: there is a tag behind the last one"));
        }
        Ok(all.iter().map(|t| t.name.clone()).collect())
    };
    let before = check(&classic.tags, "built")?;
    let loaded: &'static ClassicIndexes<'static> = sys::leak(save_and_load(classic, c)?);
    let after = check(&loaded.tags, "saved and loaded")?;
    if before != after {
        return Err(format!("the tags {before:?} are numbered {after:?} after loading"));
    }
    cx.state(&lists);
    cx.outcome(&model.values().map(BTreeSet::len).collect::<Vec<_>>());
    cx.step(3);
    cx.trace();
    Ok(())
}

/// The ways in which an order is made, with what each must be: (position, key) pairs compared by the last function.
const WAYS: usize = 7;

fn add_order(o: &mut OrderIndex, c: &'static ProductContainer<'static>, way: usize, keys: &[usize], name: &str) -> Result<Vec<usize>, String> {
    let k: &'static [usize] = sys::leak(keys.to_vec());
    let name = name.to_string();
    guarded(std::panic::AssertUnwindSafe(|| match way {
        0 => o.add(c, sys::leak(move |p: &'static Product<'static>, _: &FeatureSet| k[p.serialization_id]), name),
        1 => o.add(c, sys::leak(move |p: &'static Product<'static>, _: &FeatureSet| ["", "a", "B", "é"][k[p.serialization_id]].to_string()), name),
        2 => o.add(c, sys::leak(move |p: &'static Product<'static>, _: &FeatureSet| [f32::NEG_INFINITY, -0.5, 1e-40, 7.0][k[p.serialization_id]]), name),
        3 => o.add(c, sys::leak(move |p: &'static Product<'static>, _: &FeatureSet| (k[p.serialization_id] / 2, "x")), name),
        4 => o.add_custom_cmp(c, sys::leak(move |p: &'static Product<'static>, _: &FeatureSet| k[p.serialization_id]), sys::leak(|a: &usize, b: &usize| b.cmp(a)), name),
        5 => o.add_custom_cmp(c, sys::leak(move |p: &'static Product<'static>, _: &FeatureSet| k[p.serialization_id]), sys::leak(|a: &usize, b: &usize| (a % 2).cmp(&(b % 2))), name),
        _ => o.add_custom_cmp(c, sys::leak(move |_: &'static Product<'static>, _: &FeatureSet| ()), sys::leak(|_: &(), _: &()| std::cmp::Ordering::Equal), name),
    }))?;
    // by definition: before a product come those with a smaller key and the earlier ones with an equal key
    let rank = |x: usize| -> i64 {
        match way {
            0 | 2 => x as i64,
            // "" < "B" < "a" < "é"
            1 => [0, 2, 1, 3][x],
            3 => x as i64 / 2,
            4 => -(x as i64),
            5 => x as i64 % 2,
            _ => 0,
        }
    };
    let n = c.products.len();
    Ok((0..n).map(|i| (0..n).filter(|j| (rank(keys[*j]), *j) < (rank(keys[i]), i)).count()).collect())
}

fn orders(steps: &[(usize, usize)], keys: &[usize], cx: &mut Cx) -> Result<(), String> {
    let c = many(keys.len())?;
    let names = ["Price low to high", "price low to high", ""];
    let mut model: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    let mut o = OrderIndex::new();
    for (k, (way, name)) in steps.iter().enumerate() {
        let shifted: Vec<usize> = keys.iter().map(|x| (x + k) % 4).collect();
        let want = add_order(&mut o, c, *way, &shifted, names[*name])?;
        model.insert(names[*name], want);
        cx.step(1);
    }
    let check = |o: &OrderIndex, what: &str| -> Result<(), String> {
        let listed: Vec<String> = guarded(|| o.options().map(str::to_string).collect())?;
        if listed.len() != model.len() || listed.iter().map(String::as_str).collect::<BTreeSet<_>>() != model.keys().copied().collect() {
            return Err(format!("{what}: the orders are {listed:?}"));
        }
        for name in names.iter().chain(&["Price", "Price low to high "]) {
            let got = guarded(|| o.get_orders(name).cloned())?;
            if got.as_ref() != model.get(name) {
                return Err(format!("{what}: the order {name:?} is {got:?} instead of {:?}", model.get(name)));
            }
        }
        Ok(())
    };
    check(&o, "built")?;
    let classic = ClassicIndexes::new(CategoryIndex(Vec::new()), no_tags(c), o);
    let loaded = save_and_load(&classic, c)?;
    check(&loaded.order, "saved and loaded")?;
    if loaded.order != classic.order {
        return Err("the loaded orders do not compare equal to the saved ones".into());
    }
    cx.state(&(steps, keys));
    cx.outcome(&model.values().collect::<Vec<_>>());
    cx.trace();
    Ok(())
}

/// The k-th value of a long column, no two of which within 250 000 are the same.
fn long_value(kind: usize, k: usize) -> String {
    match kind {
        0 => (k as u32 * 7).to_string(),
        1 => (k as f32 / 2.0).to_string(),
        _ => format!("text {k}"),
    }
}

fn long_features(n: usize, cx: &mut Cx) -> Result<(), String> {
    let c = container(&[P::new("x")])?;
    let mut f = FeatureSet::new_empty();
    for k in 0..n {
        guarded(std::panic::AssertUnwindSafe(|| {
            f.add_int("i", k as u32 * 7);
            f.add_float("f", k as f32 / 2.0);
            f.add_string("s", format!("text {k}"));
        }))?;
        cx.step(3);
    }
    let check = |f: &FeatureSet, what: &str| -> Result<(), String> {
        for k in 0..n + 3 {
            let p = Product { description: String::new(), title: String::new(), vendor: c.products[0].vendor, id: "x".into(), serialization_id: k };
            for (kind, name) in ["i", "f", "s"].into_iter().enumerate() {
                let want = (k < n).then(|| long_value(kind, k));
                let text = |v: Option<FeatureValue<'_>>| {
                    v.map(|v| match v {
                        FeatureValue::Integer(n) => n.to_string(),
                        FeatureValue::Float(n) => n.to_string(),
                        FeatureValue::String(s) => s.to_string(),
                    })
                };
                let got = guarded(|| [text(f.get(&p, name)), text(f.get_feature(name).and_then(|c| c.get(k))), f.get_js(&p, name).map(|j| j.as_string().or(j.as_f64().map(|n| n.to_string())).unwrap_or_default())])?;
                if got.iter().any(|g| *g != want) {
                    return Err(format!("{what}: value {k} of {n} of {name:?} is {got:?} instead of {want:?}"));
                }
            }
        }
        Ok(())
    };
    check(&f, "built")?;
    let bytes = bytes_of(&f)?;
    match guarded(|| FeatureSet::deserialize(&bytes).map(|(r, f)| (r.len(), f)))? {
        Some((0, g)) => check(&g, "saved and loaded")?,
        other => return Err(format!("saving and loading fails ({:?} bytes left)", other.map(|o| o.0))),
    }
    cx.state(&n);
    cx.trace();
    Ok(())
}

/// Options, tags and orders over a large container.
fn long_classic(n: usize, cx: &mut Cx) -> Result<(), String> {
    let c = many(n)?;
    // an option holds the products of one remainder, a tag those of another and one of its own for every 512 products
    let of = |k: usize, m: usize, r: usize| k % m == r;
    let moduli: [(usize, usize); 5] = [(1, 0), (2, 1), (3, 2), (257, 0), (60_000, 5)];
    let mut made: Vec<CategoryOption<'static>> = Vec::new();
    for (k, (m, r)) in moduli.into_iter().enumerate() {
        let mut o = CategoryOption::new(format!("o{k}"), k);
        for p in c.products.iter().filter(|p| of(p.serialization_id, m, r)) {
            guarded(std::panic::AssertUnwindSafe(|| o.add(p)))?;
            cx.step(1);
        }
        made.push(o);
    }
    let mut cat = Category::new("c".into());
    cat.options = made;
    let names: Vec<String> = moduli.iter().map(|(m, r)| format!("t{m}.{r}")).collect();
    let own: Vec<String> = (0..n.div_ceil(512)).map(|k| format!("own {k}")).collect();
    let lists: Vec<Vec<&str>> = (0..n).map(|k| names.iter().zip(moduli).filter(|(_, (m, r))| of(k, *m, *r)).map(|(t, _)| t.as_str()).chain(Some(own[k / 512].as_str())).collect()).collect();
    let index = guarded(|| TagIndex::index(lists, c))?;
    let mut o = OrderIndex::new();
    guarded(std::panic::AssertUnwindSafe(|| {
        o.add(c, sys::leak(|p: &'static Product<'static>, _: &FeatureSet| p.serialization_id * 7919 % 65_537), "a".into());
        o.add_custom_cmp(c, sys::leak(|p: &'static Product<'static>, _: &FeatureSet| p.serialization_id % 3), sys::leak(|a: &usize, b: &usize| b.cmp(a)), "b".into());
    }))?;
    let ranks = |key: &dyn Fn(usize) -> (usize, usize)| -> Vec<usize> {
        let mut all: Vec<usize> = (0..n).collect();
        all.sort_by_key(|k| key(*k));
        let mut out = vec![0; n];
        for (rank, k) in all.into_iter().enumerate() {
            out[k] = rank;
        }
        out
    };
    let want = [ranks(&|k| (k * 7919 % 65_537, k)), ranks(&|k| (2 - k % 3, k))];
    let classic: &'static ClassicIndexes<'static> = sys::leak(ClassicIndexes::new(CategoryIndex(vec![cat]), index, o));
    let loaded: &'static ClassicIndexes<'static> = sys::leak(save_and_load(classic, c)?);
    for (x, what) in [(classic, "built"), (loaded, "saved and loaded")] {
        for (k, (m, r)) in moduli.into_iter().enumerate() {
            let Some(option) = x.categories.get(0).and_then(|c| c.options.get(k)) else { return Err(format!("{what}: option {k} is lost")) };
            let tag = x.tags.iter().find(|t| t.name == names[k]).ok_or_else(|| format!("{what}: the tag {:?} is lost", names[k]))?;
            for p in &c.products {
                let want = of(p.serialization_id, m, r);
                if option.contains(p) != want || tag.contains(p) != want {
                    return Err(format!("{what}: of {n} products, product {} is in option {k}: {}, has tag {:?}: {}, instead of {want}", p.serialization_id, option.contains(p), tag.name, tag.contains(p)));
                }
            }
        }
        let all: Vec<&Tag<'_>> = x.tags.iter().collect();
        if all.len() != own.len() + names.len() {
            return Err(format!("{what}: there are {} tags instead of {}", all.len(), own.len() + names.len()));
        }
        for (i, tag) in all.iter().enumerate() {
            if tag.get_id() != i || !x.tags.get(i).is_some_and(|g| std::ptr::eq(g, *tag)) {
                return Err(format!("{what}: tag {i} says it is number {} or is not found under it", tag.get_id()));
            }
            if let Some(k) = tag.name.strip_prefix("own ").and_then(|k| k.parse::<usize>().ok()) {
                if let Some(p) = c.products.iter().find(|p| tag.contains(p) != (p.serialization_id / 512 == k)) {
                    return Err(format!("{what}: tag {:?} is wrong about product {} of {n}", tag.name, p.serialization_id));
                }
            }
        }
        for (name, want) in ["a", "b"].iter().zip(&want) {
            let got = x.order.get_orders(name);
            if got != Some(want) {
                let at = got.and_then(|g| g.iter().zip(want).position(|(a, b)| a != b));
                return Err(format!("{what}: the order {name:?} of {n} products is wrong, first for product {at:?}"));
            }
        }
    }
    if *loaded != *classic {
        return Err("the loaded categories, tags and orders do not compare equal to the saved ones".into());
    }
    cx.state(&n);
    cx.trace();
    Ok(())
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    // vendors
    let names: &'static [&'static str] = &["one", "One", "", "one ", "é", "e\u{301}"];
    let starts: &'static [&'static [&'static str]] = &[&[], &["one"], &["é", "one", "é"]];
    let len = tier.pick(4u32, 6);
    let k = names.len() as u64;
    let total = (0..=len).map(|l| k.pow(l)).sum::<u64>();
    let pick = move |mut i: u64| -> Vec<String> {
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        digits(i, &vec![k; l as usize]).into_iter().map(|d| names[d].to_string()).collect()
    };
    let r = [total, starts.len() as u64, k + 1];
    f.push(Family::new("vendors", product(&r), 1000, move |i| { let d = digits(i, &r); format!("vendors {:?} known, {:?} added, then {:?} asked for", starts[d[1]], pick(d[0] as u64), names.get(d[2])) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i % 7 + 1);
        vendors(starts[d[1]], &pick(d[0] as u64), names.get(d[2]).copied(), cx)
    }));
    let counts: Vec<usize> = tier.pick(vec![127, 128, 129, 255, 256, 257, 300, 1000, 66_000], vec![127, 128, 129, 255, 256, 257, 300, 1000, 16_384, 66_000, 300_000]);
    let c2 = counts.clone();
    f.push(Family::new("many-vendors", counts.len() as u64, 1, move |i| format!("{} vendors, each added twice", counts[i as usize]), move |i, cx| {
        let n = c2[i as usize];
        let steps: Vec<String> = (0..2 * n).map(|k| format!("vendor {}", k % n)).collect();
        vendors(&[], &steps, Some("vendor 5"), cx)
    }));
    // features
    let n = 3 * 3 * 2u64;
    let len = tier.pick(3u32, 4);
    for l in 1..=len {
        let r = vec![n; l as usize];
        let of = move |i: u64| digits(i, &r).into_iter().map(|d| (d % 3, d / 3 % 3, d / 9)).collect::<Vec<_>>();
        let o2 = of.clone();
        f.push(Family::new(["", "features-1", "features-2", "features-3", "features-4"][l as usize], n.pow(l), 400, move |i| format!("features added: {:?}", of(i).iter().map(|(a, b, c)| (NAMES[*a], VALUES[*b][*c])).collect::<Vec<_>>()), move |i, cx| {
            sys::set_seed(i % 5 + 1);
            features(&o2(i), cx)
        }));
    }
    let deep = tier.pick(6u32, 8);
    // one name, or two, of two kinds
    let r = vec![4u64; deep as usize];
    let of = move |i: u64| digits(i, &r).into_iter().map(|d| (d % 2, 1 + d / 2, d % 2)).collect::<Vec<_>>();
    let o2 = of.clone();
    f.push(Family::new("features-deep", 4u64.pow(deep), 300, move |i| format!("features added: {:?}", of(i).iter().map(|(a, b, c)| (NAMES[*a], VALUES[*b][*c])).collect::<Vec<_>>()), move |i, cx| features(&o2(i), cx)));
    // options
    let sets: &'static [[usize; 3]] = &[[0, 1, 2], [0, 127, 128], [255, 256, 300]];
    let len = tier.pick(4u32, 5);
    let r = vec![9u64; len as usize];
    let of = move |i: u64| digits(i, &r).into_iter().map(|d| (d % 3, d / 3)).collect::<Vec<_>>();
    let o2 = of.clone();
    f.push(Family::new("options", 9u64.pow(len) * 12, 4000, move |i| format!("(option, product) pairs added: {:?}, products {:?}, exclusive flags {}", of(i / 12), sets[(i % 3) as usize], i / 3 % 4), move |i, cx| {
        let e = i / 3 % 4;
        options(&o2(i / 12), &sets[(i % 3) as usize], [e % 2 == 1, e / 2 == 1], cx)
    }));
    // tags
    let lists: &'static [&'static [&'static str]] = &[&[], &["a"], &["b"], &["A"], &["a", "b"], &["b", "a"], &["a", "a"], &["", "a"], &["a ", "a"], &["a", "b", "A", "é"]];
    let k = lists.len() as u64;
    let n = tier.pick(3usize, 4);
    let r = vec![k; n];
    let of = move |i: u64| digits(i, &r).into_iter().map(|d| lists[d].to_vec()).collect::<Vec<_>>();
    let o2 = of.clone();
    f.push(Family::new("tags", k.pow(n as u32) * 3, 600, move |i| format!("tags of the products: {:?}, hash seed {}", of(i / 3), i % 3), move |i, cx| {
        sys::set_seed(i % 3 + 1);
        tags(&o2(i / 3), cx)
    }));
    // orders
    let ways = (WAYS * 3) as u64;
    let keys = Rc::new((0..=tier.pick(4u32, 5)).flat_map(|n| (0..4u64.pow(n)).map(move |i| digits(i, &vec![4; n as usize]))).collect::<Vec<_>>());
    let (k2, total) = (keys.clone(), keys.len() as u64);
    let r = [total, ways];
    f.push(Family::new("orders-1", product(&r), 300, move |i| { let d = digits(i, &r); format!("keys {:?}, way {} under name {}", keys[d[0]], d[1] % WAYS, d[1] / WAYS) }, move |i, cx| {
        let d = digits(i, &r);
        orders(&[(d[1] % WAYS, d[1] / WAYS)], &k2[d[0]], cx)
    }));
    let some: &'static [&'static [usize]] = &[&[0, 1, 2, 3], &[3, 1, 3, 0, 1], &[2, 2, 0, 1, 3, 0]];
    let r = [some.len() as u64, ways, ways, ways];
    f.push(Family::new("orders-3", product(&r), 1000, move |i| { let d = digits(i, &r); format!("keys {:?}, orders {:?}", some[d[0]], d[1..].iter().map(|w| (w % WAYS, w / WAYS)).collect::<Vec<_>>()) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i % 5 + 1);
        orders(&d[1..].iter().map(|w| (w % WAYS, w / WAYS)).collect::<Vec<_>>(), some[d[0]], cx)
    }));
    let sizes: &'static [usize] = &[127, 128, 129, 255, 256, 257, 300, 1000];
    let r = [sizes.len() as u64, WAYS as u64];
    f.push(Family::new("orders-many", product(&r), 4, move |i| { let d = digits(i, &r); format!("{} products, way {}", sizes[d[0]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        orders(&[(d[1], 0)], &(0..sizes[d[0]]).map(|k| k * 7 % 11 % 4).collect::<Vec<_>>(), cx)
    }));
    // an order that is added again for another container
    let sizes: &'static [usize] = &[0, 1, 2, 3, 5, 130, 300];
    let r = [7, 7, 7, 3];
    f.push(Family::new("orders-again", product(&r), 40, move |i| { let d = digits(i, &r); format!("orders of {}, {} and {} products under one name, way {}", sizes[d[0]], sizes[d[1]], sizes[d[2]], d[3]) }, move |i, cx| {
        let d = digits(i, &r);
        let mut o = OrderIndex::new();
        for k in 0..3 {
            let n = sizes[d[k]];
            let keys: Vec<usize> = (0..n).map(|j| (j * 3 + k) % 4).collect();
            let want = add_order(&mut o, many(n)?, [0, 4, 5][d[3]], &keys, "again")?;
            let got = guarded(|| o.get_orders("again").cloned())?;
            if got.as_ref() != Some(&want) || o.options().collect::<Vec<_>>() != ["again"] {
                return Err(format!("after order {k} the order is {got:?} instead of {want:?}"));
            }
            cx.step(1);
        }
        cx.state(&i);
        cx.trace();
        Ok(())
    }));
    let sizes: &'static [usize] = tier.pick(&[100, 255, 256, 257, 4097, 66_000], &[100, 255, 256, 257, 4097, 32_769, 66_000, 132_000, 250_000]);
    f.push(Family::new("long", sizes.len() as u64 * 2, 1, move |i| format!("{} {}", sizes[(i / 2) as usize], ["values of every type", "products in options, tags and orders"][(i % 2) as usize]), move |i, cx| {
        if i % 2 == 0 {
            long_features(sizes[(i / 2) as usize], cx)
        } else {
            long_classic(sizes[(i / 2) as usize], cx)
        }
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C23",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["keys of an order are comparable with each other"],
        bounds: |t| vec![
            t.pick("every sequence of up to 4 of 6 vendor names onto 3 containers, then any of them or none asked for; up to 66 000 vendors", "every sequence of up to 6 of 6 vendor names onto 3 containers, then any of them or none asked for; up to 300 000 vendors").into(),
            t.pick("every sequence of up to 3 of 18 feature values (3 names, 3 types), of 6 of 4", "every sequence of up to 4 of 18 feature values (3 names, 3 types), of 8 of 4").into(),
            t.pick("every sequence of 4 additions of 3 products to 3 options of 2 categories x flags x product numbers", "every sequence of 5 additions of 3 products to 3 options of 2 categories x flags x product numbers").into(),
            t.pick("all assignments of 10 tag lists to 3 products", "all assignments of 10 tag lists to 4 products").into(),
            t.pick("all keys of 4 kinds of up to 4 products x 7 ways to order them; every sequence of three orders under three names", "all keys of 4 kinds of up to 5 products x 7 ways to order them; every sequence of three orders under three names").into(),
            t.pick("features, options, tags and orders of up to 66 000 products", "features, options, tags and orders of up to 250 000 products").into(),
        ],
    })
}
