//! Small catalogues and everything the exported functions may be asked about the loaded one (C15-C17).
use std::sync::{Arc, OnceLock};

use indexer_lib as ix;
use vharness::engine::guarded;
use vharness::model::*;
use vharness::sys::{self, CategoryHandler, TagHandler};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ask {
    /// no sort order
    Search,
    /// sorted by this order (index into ORDERS)
    Sorted(usize),
    /// an order that is not offered
    Unoffered,
    Categories,
    Tags,
    Orders,
    Suggest,
}
pub const ORDERS: [&str; 3] = ["Alphabetical", "Price low to high", "Price high to low"];
pub const ASKS: [Ask; 7] = [Ask::Search, Ask::Sorted(0), Ask::Sorted(1), Ask::Categories, Ask::Tags, Ask::Orders, Ask::Suggest];
pub const ALL_ASKS: [Ask; 9] = [Ask::Search, Ask::Sorted(0), Ask::Sorted(1), Ask::Sorted(2), Ask::Unoffered, Ask::Categories, Ask::Tags, Ask::Orders, Ask::Suggest];

pub struct World {
    pub name: &'static str,
    pub ps: Vec<P>,
    pub image: Vec<u8>,
}

/// Catalogues that answer every question differently although the same queries match them:
/// A and B have the same number of products, C more, D fewer; the sort orders all differ.
pub fn catalogue(name: &str) -> Vec<P> {
    let (n, titles, prices): (usize, &[&str], &[&str]) = match name {
        "A" => (3, &["x", "y", "z"], &["1", "2", "3"]),
        "B" => (3, &["z", "x", "y"], &["2", "3", "1"]),
        "C" => (5, &["e", "a", "d", "b", "c"], &["4", "2", "5", "1", "3"]),
        // nothing at all, and products without tags and options
        "empty" => (0, &[], &[]),
        "bare" => return (0..3).map(|i| P::new(&format!("bare{i}")).desc(&token(i)).title(["n", "m", "o"][i]).price(["6", "9", "7"][i])).collect(),
        // all of a single product's grams are too common
        "one" => (1, &["w"], &["5"]),
        _ => (2, &["q", "p"], &["8", "7"]),
    };
    (0..n)
        .map(|i| {
            P::new(&format!("{name}{i}"))
                .desc(&token(i))
                .title(titles[i])
                .price(prices[i])
                .media(&format!("{name}/{i}"))
                .tag(&format!("tag{name}"))
                .tag(if i == 0 { "first" } else { "later" })
                .opt("Size", &[&format!("{name}-size")])
                .opt(if i == 1 { "Shape" } else { "Color" }, &[name, titles[i]])
        })
        .collect()
}

pub fn world(name: &'static str) -> Result<World, String> {
    let ps = catalogue(name);
    let image = sys::image(&ps)?;
    Ok(World { name, ps, image })
}

impl World {
    /// The products a search for all texts finds.
    pub fn found(&self) -> impl Iterator<Item = &P> {
        self.ps.iter().filter(|_| self.ps.len() > 1)
    }
}

pub fn query() -> String {
    (0..6).map(token).collect::<Vec<_>>().join(" ")
}

/// What the exported functions answer while `w` is the loaded catalogue (None: nothing was loaded).
pub fn expected(w: Option<&World>, ask: Ask) -> String {
    let Some(w) = w else { return "nothing".into() };
    let row = |p: &P| format!("{}/{}/{:?}/{}", p.id, p.title, Some(f64::from(p.price_f32())), p.media.first().cloned().unwrap_or_default());
    match ask {
        Ask::Search => {
            let mut v: Vec<String> = w.found().map(row).collect();
            v.sort();
            format!("{v:?}")
        }
        Ask::Sorted(k) => {
            let mut v: Vec<&P> = w.found().collect();
            match k {
                0 => v.sort_by(|a, b| a.title.cmp(&b.title)),
                1 => v.sort_by(|a, b| a.price_f32().total_cmp(&b.price_f32())),
                _ => v.sort_by(|a, b| b.price_f32().total_cmp(&a.price_f32())),
            }
            format!("{:?}", v.into_iter().map(row).collect::<Vec<_>>())
        }
        Ask::Unoffered => "nothing".into(),
        Ask::Categories => {
            let mut out: Vec<(String, Vec<String>)> = Vec::new();
            for p in &w.ps {
                for (n, vs) in &p.options {
                    let k = out.iter().position(|c| c.0 == *n).unwrap_or_else(|| {
                        out.push((n.clone(), Vec::new()));
                        out.len() - 1
                    });
                    for v in vs {
                        if !out[k].1.contains(v) {
                            out[k].1.push(v.clone());
                        }
                    }
                }
            }
            format!("{out:?}")
        }
        Ask::Tags => {
            let mut out: Vec<&String> = w.ps.iter().flat_map(|p| &p.tags).collect();
            out.sort();
            out.dedup();
            format!("{out:?}")
        }
        Ask::Orders => {
            let mut o = ORDERS;
            o.sort_unstable();
            format!("{o:?}")
        }
        Ask::Suggest if w.name.len() > 1 && w.name != "one" => "nothing".into(),
        Ask::Suggest => format!("(\"tag{}\", \"tag{}\")", w.name, w.name),
    }
}

pub fn show_result(r: &mut ix::js_interactable::ProductProducer, sorted: bool) -> String {
    let mut v: Vec<String> = sys::drain(r, 50).iter().map(|f| format!("{}/{}/{:?}/{}", f.id, f.title, f.price, f.image.clone().unwrap_or_default())).collect();
    if sorted {
        v.sort();
    }
    format!("{v:?}")
}
pub fn show_categories(h: &CategoryHandler) -> Result<String, String> {
    let v: Vec<(String, Vec<String>)> = sys::list_categories(h, 50)?.into_iter().map(|(n, o)| (n, o.into_iter().map(|o| o.0).collect())).collect();
    Ok(format!("{v:?}"))
}
pub fn show_tags(h: &TagHandler) -> Result<String, String> {
    let mut v: Vec<String> = sys::list_tags(h, 50)?.iter().map(|t| t.get_name()).collect();
    v.sort();
    Ok(format!("{v:?}"))
}

/// Handlers with nothing selected, independent of what is loaded.
pub fn idle_handlers() -> Result<(CategoryHandler, TagHandler), String> {
    static CLASSIC: OnceLock<Arc<ix::classic_indexes::ClassicIndexes<'static>>> = OnceLock::new();
    if CLASSIC.get().is_none() {
        let image = sys::image(&catalogue("A"))?;
        let (_, classic) = sys::must_decode::<5>(&image)?;
        CLASSIC.set(Arc::new(classic)).ok();
    }
    let c = CLASSIC.get().ok_or("handlers")?;
    Ok((CategoryHandler::new(c.clone()), TagHandler::new(c.clone())))
}

pub const WORDS: &str = "tagA tagB tagC tagD tagone";
/// Asks the exported functions. A panic is part of the answer.
pub fn ask(a: Ask, cats: &CategoryHandler, tags: &TagHandler) -> String {
    let search = |order: Option<String>, unordered: bool| match guarded(|| ix::search(&query(), cats, tags, order, &sys::no_filter())) {
        Ok(None) => Ok("nothing".to_string()),
        Ok(Some(mut r)) => guarded(|| show_result(&mut r, unordered)),
        Err(e) => Err(e),
    };
    let out = match a {
        Ask::Search => search(None, true),
        Ask::Sorted(k) => search(Some(ORDERS[k].to_string()), false),
        Ask::Unoffered => search(Some("Best".into()), false),
        Ask::Categories => sys::categories().and_then(|h| h.map_or(Ok("nothing".into()), |h| show_categories(&h))),
        Ask::Tags => sys::tags().and_then(|h| h.map_or(Ok("nothing".into()), |h| show_tags(&h))),
        Ask::Orders => sys::orders().map(|o| o.map_or("nothing".into(), |o| format!("{o:?}"))),
        Ask::Suggest => sys::suggest(WORDS).map(|o| o.map_or("nothing".into(), |o| format!("{o:?}"))),
    };
    out.unwrap_or_else(|e| e)
}
