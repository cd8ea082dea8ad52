//! Decoded indexes of small catalogues for the lookup and search checks (C06, C07).
use vharness::model::*;
use vharness::sys;

pub fn catalogue(texts: &[String]) -> Vec<P> {
    texts.iter().enumerate().map(|(i, t)| P::new(&format!("id{i}")).desc(t)).collect()
}

pub fn decoded<const N: usize>(ps: &[P]) -> Result<sys::Gi<N>, String> {
    sys::must_decode::<N>(&sys::image_n::<N>(ps)?).map(|(i, _)| i)
}

/// All queries of exactly `n` characters over `alphabet`.
pub fn queries(alphabet: &[char], n: usize) -> impl Iterator<Item = Vec<char>> + '_ {
    let k = alphabet.len() as u64;
    (0..k.pow(n as u32)).map(move |i| {
        let mut i = i;
        (0..n)
            .map(|_| {
                let c = alphabet[(i % k) as usize];
                i /= k;
                c
            })
            .collect()
    })
}

/// Every query at most `edits` edits (change, drop, insert, swap) from `base`, cut or filled to n characters.
pub fn near(base: &[char], alphabet: &[char], edits: usize, n: usize) -> std::collections::BTreeSet<Vec<char>> {
    let mut level = std::collections::BTreeSet::new();
    level.insert(base.to_vec());
    let mut all = level.clone();
    for _ in 0..edits {
        let mut next = std::collections::BTreeSet::new();
        for q in &level {
            for i in 0..q.len() {
                let mut d = q.clone();
                d.remove(i);
                next.insert(d);
                for c in alphabet {
                    let mut s = q.clone();
                    s[i] = *c;
                    next.insert(s);
                    let mut s = q.clone();
                    s.insert(i, *c);
                    next.insert(s);
                }
                if i + 1 < q.len() {
                    let mut s = q.clone();
                    s.swap(i, i + 1);
                    next.insert(s);
                }
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    all.into_iter()
        .filter_map(|mut q| {
            q.truncate(n);
            while q.len() < n {
                q.push(*alphabet.last()?);
            }
            Some(q)
        })
        .collect()
}
