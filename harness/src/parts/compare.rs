//! Field-by-field comparison of two indexes with the public data model of the crate.
use std::collections::{BTreeMap, HashSet};

use indexer_lib as ix;
use ix::classic_indexes::ClassicIndexes;
use ix::data::{Feature, FeatureSet, Product};
use ix::ngram::{GramIndex, GramNode};

use vharness::model::{shortened, P};

pub fn feature(f: Option<&Feature>) -> String {
    match f {
        None => "absent".into(),
        Some(Feature::String(v)) => format!("text {v:?}"),
        Some(Feature::Float(v)) => format!("float {:?}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
        Some(Feature::Integer(v)) => format!("integer {v:?}"),
    }
}

fn node(a: &GramNode<'_, char>, b: &GramNode<'_, char>, path: &mut String) -> Result<(), String> {
    if a.item != b.item || a.weight.to_bits() != b.weight.to_bits() {
        return Err(format!("gram tree differs at {path:?}: ({:?}, {}) became ({:?}, {})", a.item, a.weight, b.item, b.weight));
    }
    if a.by_occurances.len() != b.by_occurances.len() || a.items.len() != b.items.len() {
        return Err(format!("gram tree differs at {path:?}: {}/{} children became {}/{}", a.by_occurances.len(), a.items.len(), b.by_occurances.len(), b.items.len()));
    }
    for (x, y) in a.by_occurances.iter().zip(&b.by_occurances) {
        path.push(x.item);
        node(x, y, path)?;
        path.pop();
    }
    for (k, x) in &a.items {
        let Some(y) = b.items.get(k) else { return Err(format!("gram tree at {path:?} lost child {k:?}")) };
        if x.item != y.item || x.weight.to_bits() != y.weight.to_bits() || x.by_occurances.len() != y.by_occurances.len() {
            return Err(format!("gram tree at {path:?}: child {k:?} found by character differs"));
        }
    }
    Ok(())
}

/// Tree, postings and container of `b` are those of `a` (descriptions shortened).
pub fn gram_index<const N: usize>(a: &GramIndex<'_, char, Product<'_>, N>, b: &GramIndex<'_, char, Product<'_>, N>, keys: &[&str]) -> Result<(), String> {
    let (pa, pb) = (&a.product_container.products, &b.product_container.products);
    if pa.len() != pb.len() {
        return Err(format!("{} products became {}", pa.len(), pb.len()));
    }
    for (i, (x, y)) in pa.iter().zip(pb).enumerate() {
        let want = (shortened(&x.description, 100), &x.title, &x.id, &x.vendor.name, x.vendor.id, i);
        let got = (y.description.clone(), &y.title, &y.id, &y.vendor.name, y.vendor.id, y.serialization_id);
        if want != got || x.serialization_id != i {
            return Err(format!("product {i}: {want:?} became {got:?}"));
        }
    }
    let va: Vec<_> = a.product_container.vendors.by_id.iter().map(|v| (v.id, v.name.as_str())).collect();
    let vb: Vec<_> = b.product_container.vendors.by_id.iter().map(|v| (v.id, v.name.as_str())).collect();
    if va != vb {
        return Err(format!("vendors {va:?} became {vb:?}"));
    }
    for (_, name) in &va {
        let (x, y) = (a.product_container.vendors.get(name), b.product_container.vendors.get(name));
        if x.map(|v| (v.id, &v.name)) != y.map(|v| (v.id, &v.name)) {
            return Err(format!("vendor {name:?} is found differently after loading"));
        }
    }
    features(&a.product_container.extra_features, &b.product_container.extra_features, keys)?;
    if a.roots.len() != b.roots.len() {
        return Err(format!("{} roots became {}", a.roots.len(), b.roots.len()));
    }
    for (k, x) in &a.roots {
        let Some(y) = b.roots.get(k) else { return Err(format!("root {k:?} lost")) };
        let mut path = String::from(*k);
        node(x, y, &mut path)?;
    }
    if a.data.len() != b.data.len() {
        return Err(format!("{} grams with postings became {}", a.data.len(), b.data.len()));
    }
    for (k, x) in &a.data {
        let want: Vec<usize> = x.iter().map(|p| p.serialization_id).collect();
        let got: Option<Vec<usize>> = b.data.get(k).map(|v| v.iter().map(|p| p.serialization_id).collect());
        if got.as_ref() != Some(&want) {
            return Err(format!("postings of {k:?}: {want:?} became {got:?}"));
        }
        for p in &b.data[k] {
            if !std::ptr::eq(*p, &pb[p.serialization_id]) && (p.id != pb[p.serialization_id].id || p.title != pb[p.serialization_id].title) {
                return Err(format!("postings of {k:?} refer to a product that is not in the catalogue"));
            }
        }
    }
    Ok(())
}

pub fn features(a: &FeatureSet, b: &FeatureSet, keys: &[&str]) -> Result<(), String> {
    for k in keys {
        let (x, y) = (feature(a.get_feature(k)), feature(b.get_feature(k)));
        if x != y {
            return Err(format!("feature {k:?}: {x} became {y}"));
        }
    }
    Ok(())
}

pub type Cats = Vec<(String, bool, Vec<(String, usize, Vec<usize>)>)>;
pub fn cats(c: &ClassicIndexes<'_>, products: &[Product<'_>]) -> Cats {
    c.categories
        .0
        .iter()
        .map(|cat| {
            (
                cat.name.clone(),
                cat.exclusive,
                cat.options.iter().map(|o| (o.name.clone(), o.serialization_id, products.iter().filter(|p| o.contains(p)).map(|p| p.serialization_id).collect())).collect(),
            )
        })
        .collect()
}
pub fn tags(c: &ClassicIndexes<'_>, products: &[Product<'_>]) -> Vec<(String, usize, Vec<usize>)> {
    c.tags.iter().map(|t| (t.name.clone(), t.get_id(), products.iter().filter(|p| t.contains(p)).map(|p| p.serialization_id).collect())).collect()
}
pub fn orders(c: &ClassicIndexes<'_>) -> BTreeMap<String, Vec<usize>> {
    c.order.options().map(|k| (k.to_string(), c.order.get_orders(k).cloned().unwrap_or_default())).collect()
}

pub fn classic(a: &ClassicIndexes<'_>, b: &ClassicIndexes<'_>, products: &[Product<'_>]) -> Result<(), String> {
    let (x, y) = (cats(a, products), cats(b, products));
    if x != y {
        return Err(format!("categories {x:?} became {y:?}"));
    }
    let (x, y) = (tags(a, products), tags(b, products));
    if x != y {
        return Err(format!("tags {x:?} became {y:?}"));
    }
    let (x, y) = (orders(a), orders(b));
    if x != y {
        return Err(format!("orders {x:?} became {y:?}"));
    }
    if !(a == b) {
        return Err("the loaded category, tag and order indexes do not compare equal to the saved ones".into());
    }
    Ok(())
}

/// An index against the catalogue it was made from: products, membership, orders.
pub fn against_catalogue(ps: &[P], products: &[Product<'_>], feats: &FeatureSet, c: &ClassicIndexes<'_>) -> Result<(), String> {
    if products.len() != ps.len() {
        return Err(format!("{} products in the catalogue, {} in the index", ps.len(), products.len()));
    }
    for (i, (p, q)) in ps.iter().zip(products).enumerate() {
        let want = (shortened(&p.desc, 100), &p.title, &p.id, &p.vendor);
        let got = (q.description.clone(), &q.title, &q.id, &q.vendor.name);
        if want != got {
            return Err(format!("product {i}: catalogue {want:?}, index {got:?}"));
        }
        let price = match feats.get(q, "price") {
            Some(ix::data::FeatureValue::Float(f)) => Some(f),
            _ => None,
        };
        if price.map(f32::to_bits) != Some(p.price_f32().to_bits()) {
            return Err(format!("product {i}: price {:?}, index {price:?}", p.price));
        }
    }
    let own_tags: Vec<HashSet<&str>> = ps.iter().map(|p| p.tags.iter().map(String::as_str).collect()).collect();
    let own_options: Vec<HashSet<(&str, &str)>> = ps.iter().map(|p| p.options.iter().flat_map(|(n, v)| v.iter().map(move |v| (n.as_str(), v.as_str()))).collect()).collect();
    for t in c.tags.iter() {
        for (i, q) in products.iter().enumerate() {
            if t.contains(q) != own_tags[i].contains(t.name.as_str()) {
                return Err(format!("tag {:?}: product {i} listed wrongly", t.name));
            }
        }
    }
    for cat in &c.categories.0 {
        for o in &cat.options {
            for (i, q) in products.iter().enumerate() {
                if o.contains(q) != own_options[i].contains(&(cat.name.as_str(), o.name.as_str())) {
                    return Err(format!("option {:?}/{:?}: product {i} listed wrongly", cat.name, o.name));
                }
            }
        }
    }
    Ok(())
}
