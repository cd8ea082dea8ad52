//! The content of an index, free of positions and hash order.
use std::collections::{BTreeMap, BTreeSet};

use indexer_lib as ix;
use vharness::model::*;
use vharness::sys;

/// What an index says about its catalogue, free of positions.
#[derive(Clone, Debug, PartialEq, Default, Hash)]
pub struct Content {
    pub products: BTreeMap<String, (String, String, String, Option<u32>, Option<String>)>,
    pub tags: BTreeMap<String, BTreeSet<String>>,
    pub categories: BTreeMap<String, BTreeMap<String, BTreeSet<String>>>,
    pub postings: BTreeMap<String, Vec<String>>,
    pub roots: BTreeSet<char>,
}

pub fn expected(ps: &[P]) -> Content {
    let mut c = Content::default();
    for p in ps {
        c.products.insert(p.id.clone(), (shortened(&p.desc, 100), p.title.clone(), p.vendor.clone(), Some(p.price_f32().to_bits()), p.media.first().cloned().filter(|u| !u.is_empty())));
        for t in &p.tags {
            c.tags.entry(t.clone()).or_default().insert(p.id.clone());
        }
        for (n, vs) in &p.options {
            let cat = c.categories.entry(n.clone()).or_default();
            for v in vs {
                cat.entry(v.clone()).or_default().insert(p.id.clone());
            }
        }
    }
    let r = Ref::of(ps, 5);
    for (g, list) in r.all_postings() {
        let mut ids: Vec<String> = list.iter().map(|i| ps[*i].id.clone()).collect();
        ids.sort();
        c.postings.insert(g.iter().collect(), ids);
    }
    c.roots = r.kids.get(&[][..]).cloned().unwrap_or_default();
    c
}

pub fn content(bytes: &[u8]) -> Result<Content, String> {
    let (i, c) = sys::must_decode::<5>(bytes)?;
    let pc = i.product_container;
    let mut out = Content::default();
    for p in &pc.products {
        let price = match pc.extra_features.get(p, "price") {
            Some(ix::data::FeatureValue::Float(f)) => Some(f.to_bits()),
            _ => None,
        };
        let image = match pc.extra_features.get(p, "image_url") {
            Some(ix::data::FeatureValue::String(s)) if !s.is_empty() => Some(s.to_string()),
            _ => None,
        };
        if out.products.insert(p.id.clone(), (p.description.clone(), p.title.clone(), p.vendor.name.clone(), price, image)).is_some() {
            return Err(format!("product {:?} is indexed twice", p.id));
        }
    }
    for t in c.tags.iter() {
        let set = pc.products.iter().filter(|p| t.contains(p)).map(|p| p.id.clone()).collect();
        if out.tags.insert(t.name.clone(), set).is_some() {
            return Err(format!("tag {:?} is indexed twice", t.name));
        }
    }
    for cat in (0..).map_while(|k| c.categories.get(k)) {
        let m = out.categories.entry(cat.name.clone()).or_default();
        for o in &cat.options {
            m.insert(o.name.clone(), pc.products.iter().filter(|p| o.contains(p)).map(|p| p.id.clone()).collect());
        }
    }
    for (g, list) in i.data.iter().filter(|(g, _)| g[0] != '\0') {
        let mut ids: Vec<String> = list.iter().map(|p| p.id.clone()).collect();
        ids.sort();
        out.postings.insert(g.iter().collect(), ids);
    }
    out.roots = i.roots.keys().copied().collect();
    Ok(out)
}

pub fn diff(got: &Content, want: &Content) -> String {
    for (k, w) in &want.products {
        if got.products.get(k) != Some(w) {
            return format!("product {k:?} is {:?} instead of {w:?}", got.products.get(k));
        }
    }
    if let Some(k) = got.products.keys().find(|k| !want.products.contains_key(*k)) {
        return format!("product {k:?} is not in the document");
    }
    if got.tags != want.tags {
        return format!("the tags are {:?} instead of {:?}", got.tags, want.tags);
    }
    if got.categories != want.categories {
        return format!("the categories are {:?} instead of {:?}", got.categories, want.categories);
    }
    for (k, w) in &want.postings {
        if got.postings.get(k) != Some(w) {
            return format!("text {k:?} is listed for {:?} instead of {w:?}", got.postings.get(k));
        }
    }
    format!("searchable text differs: {:?} / first characters {:?}", got.postings.keys().find(|k| !want.postings.contains_key(*k)), got.roots.symmetric_difference(&want.roots).collect::<Vec<_>>())
}
