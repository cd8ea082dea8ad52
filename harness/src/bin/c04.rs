use std::collections::BTreeMap;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};
#[path = "../parts/corpus.rs"]
mod corpus;

fn postings<const N: usize>(ps: &[P], cx: &mut Cx) -> Result<(), String> {
    postings_of::<N>(ps, &Ref::of(ps, N), cx)
}

fn postings_of<const N: usize>(ps: &[P], r: &Ref, cx: &mut Cx) -> Result<(), String> {
    let bytes = sys::image_n::<N>(ps)?;
    let (index, _) = sys::must_decode::<N>(&bytes)?;
    // windows that are not full yet are padded with NUL in front; they are no run of N characters
    let got: BTreeMap<Vec<char>, Vec<usize>> = index.data.iter().filter(|(k, _)| k[0] != '\0').map(|(k, v)| (k.to_vec(), v.iter().map(|p| p.serialization_id).collect())).collect();
    for (gram, want) in r.all_postings() {
        match got.get(gram) {
            None => return Err(format!("gram {:?} of products {want:?} has no entry", gram.iter().collect::<String>())),
            Some(g) if g != want => return Err(format!("gram {:?} lists products {g:?} instead of {want:?}", gram.iter().collect::<String>())),
            _ => {}
        }
    }
    for (gram, list) in &got {
        if r.postings(gram).is_none() {
            return Err(format!(
                "gram {:?} is listed for {list:?}; the products containing it are {:?} of {}",
                gram.iter().collect::<String>(),
                r.raw_postings.get(gram).cloned().unwrap_or_default(),
                ps.len()
            ));
        }
    }
    for (i, p) in index.product_container.products.iter().enumerate() {
        if p.id != ps[i].id {
            return Err(format!("position {i} holds product {:?} instead of {:?}", p.id, ps[i].id));
        }
    }
    cx.state(&got);
    cx.outcome(&got.len());
    cx.step(ps.len() as u64);
    cx.trace();
    Ok(())
}

fn check(n: usize, ps: &[P], cx: &mut Cx) -> Result<(), String> {
    if n > 9 {
        return with_long_n!(n, postings, ps, cx);
    }
    with_n!(n, postings, ps, cx)
}

fn main() {
    run(&Spec {
        prop: "C04",
        level: "model_checking",
        init: sys::init,
        families: |t| {
            let mut f = vec![Family::new("very-frequent", t.pick(2, 3), 1, |i| format!("one character more than 2^24 times, kind {i}"), |i, cx| {
                let kind = i as usize;
                postings_of::<5>(&shapes::frequent(kind), &Ref::periodic(&shapes::frequent_texts(kind), 5), cx).map_err(shapes::cut)
            })];
            f.extend(corpus::families(t, check));
            f
        },
        assumptions: &["texts contain no NUL character (it is the padding of a window that is not full yet; padded entries are ignored)", "every catalogue has at least one product per listed position; product ids are distinct"],
        bounds: corpus::bounds,
    })
}
