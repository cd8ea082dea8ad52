//! Reference model: catalogues and what the documented behaviour says about them. Deliberately naive
//! and independent of the code under test.
use std::collections::{BTreeMap, BTreeSet, HashSet};

use serde_json::json;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct P {
    pub desc: String,
    pub title: String,
    pub vendor: String,
    pub id: String,
    pub tags: Vec<String>,
    pub options: Vec<(String, Vec<String>)>,
    pub price: String,
    pub media: Vec<String>,
    /// currency code, highest price and its currency code, if not the usual ones
    pub money: Option<(String, String, String)>,
}

impl P {
    pub fn new(id: &str) -> P {
        P { id: id.into(), price: "1".into(), ..P::default() }
    }
    pub fn desc(mut self, s: &str) -> P {
        self.desc = s.into();
        self
    }
    pub fn title(mut self, s: &str) -> P {
        self.title = s.into();
        self
    }
    pub fn vendor(mut self, s: &str) -> P {
        self.vendor = s.into();
        self
    }
    pub fn price(mut self, s: &str) -> P {
        self.price = s.into();
        self
    }
    pub fn money(mut self, currency: &str, max: &str, max_currency: &str) -> P {
        self.money = Some((currency.into(), max.into(), max_currency.into()));
        self
    }
    pub fn tag(mut self, s: &str) -> P {
        self.tags.push(s.into());
        self
    }
    pub fn opt(mut self, name: &str, values: &[&str]) -> P {
        self.options.push((name.into(), values.iter().map(|v| (*v).to_string()).collect()));
        self
    }
    pub fn media(mut self, s: &str) -> P {
        self.media.push(s.into());
        self
    }
    pub fn json(&self) -> serde_json::Value {
        let (currency, max, max_currency) = match &self.money {
            Some((c, m, mc)) => (c.as_str(), m.as_str(), mc.as_str()),
            None => ("DKK", "999999", "DKK"),
        };
        json!({
            "description": self.desc, "title": self.title, "vendor": self.vendor, "id": self.id,
            "tags": self.tags,
            "options": self.options.iter().map(|(n, v)| json!({"name": n, "values": v})).collect::<Vec<_>>(),
            "price": {"min": {"amount": self.price, "currencyCode": currency}, "max": {"amount": max, "currencyCode": max_currency}},
            "media": self.media.iter().map(|u| json!({"url": u})).collect::<Vec<_>>(),
        })
    }
    /// The searchable text: description, title and vendor as one lower-cased text.
    pub fn text(&self) -> Vec<char> {
        [&self.desc, &self.title, &self.vendor].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase).collect()
    }
    pub fn price_f32(&self) -> f32 {
        self.price.parse().unwrap_or(f32::NAN)
    }
}

/// A token of five characters that occur in no other token (for catalogue position `i`).
pub fn token(i: usize) -> String {
    // CJK ideographs: no case, no combining behaviour; 5 per position.
    (0..5).map(|k| char::from_u32(0x4E00 + (i * 5 + k) as u32).unwrap_or('?')).collect()
}

/// Short rendering for reports.
pub fn brief(ps: &[P]) -> String {
    let mut out = String::new();
    for p in ps.iter().take(6) {
        out.push_str(&format!("[id={:?} d={:?} t={:?} v={:?}", p.id, p.desc, p.title, p.vendor));
        if !p.tags.is_empty() {
            out.push_str(&format!(" tags={:?}", p.tags));
        }
        if !p.options.is_empty() {
            out.push_str(&format!(" options={:?}", p.options));
        }
        if p.price != "1" {
            out.push_str(&format!(" price={}", p.price));
        }
        if let Some((c, m, mc)) = &p.money {
            out.push_str(&format!(" currency={c:?} max={m:?} {mc:?}"));
        }
        if !p.media.is_empty() {
            out.push_str(&format!(" media={:?}", p.media));
        }
        out.push(']');
    }
    if ps.len() > 6 {
        out.push_str(&format!("… ({} products)", ps.len()));
    }
    out
}

/// Gram counts of a corpus for gram length `n`.
pub struct Ref {
    pub n: usize,
    /// occurrences of every run of 1..=n characters
    pub count: BTreeMap<Vec<char>, u64>,
    pub total: u64,
    /// children characters of every path (including the empty one)
    pub kids: BTreeMap<Vec<char>, BTreeSet<char>>,
    /// gram -> catalogue positions, ascending, once per occurrence; without the cut-off
    pub raw_postings: BTreeMap<Vec<char>, Vec<usize>>,
    pub products: usize,
}

impl Ref {
    pub fn new(texts: &[Vec<char>], n: usize) -> Ref {
        let mut r = Ref { n, count: BTreeMap::new(), total: 0, kids: BTreeMap::new(), raw_postings: BTreeMap::new(), products: texts.len() };
        for (pos, t) in texts.iter().enumerate() {
            r.total += t.len() as u64;
            for i in 0..t.len() {
                for len in 1..=n {
                    if i + len > t.len() {
                        break;
                    }
                    let run = &t[i..i + len];
                    if len == n {
                        match r.raw_postings.get_mut(run) {
                            Some(v) => v.push(pos),
                            None => drop(r.raw_postings.insert(run.to_vec(), vec![pos])),
                        }
                    }
                    if let Some(c) = r.count.get_mut(run) {
                        *c += 1;
                        continue;
                    }
                    r.kids.entry(run[..len - 1].to_vec()).or_default().insert(run[len - 1]);
                    r.count.insert(run.to_vec(), 1);
                }
            }
        }
        r
    }
    /// Of texts that repeat a block of characters (in front of an end) very often: what two more short
    /// ones of them have different, repeated as often.
    pub fn periodic(texts: &[(&str, u64, &str)], n: usize) -> Ref {
        let mut r = Ref { n, count: BTreeMap::new(), total: 0, kids: BTreeMap::new(), raw_postings: BTreeMap::new(), products: texts.len() };
        for (pos, (block, times, end)) in texts.iter().enumerate() {
            let few = (n as u64 + 2).min(*times);
            let of = |k: u64| Ref::new(&[format!("{}{end}", block.repeat(k as usize)).chars().collect()], n);
            let (a, b) = (of(few), of(few + u64::from(few < *times)));
            r.total += a.total + (times - few) * (b.total - a.total);
            for (run, c) in b.count {
                let before = a.count.get(&run).copied().unwrap_or(0);
                let c = before + (times - few) * (c - before);
                if run.len() == n {
                    r.raw_postings.entry(run.clone()).or_default().extend(std::iter::repeat(pos).take(c as usize));
                }
                *r.count.entry(run).or_default() += c;
            }
            for (run, k) in b.kids {
                r.kids.entry(run).or_default().extend(k);
            }
        }
        r
    }
    pub fn of(ps: &[P], n: usize) -> Ref {
        Ref::new(&ps.iter().map(P::text).collect::<Vec<_>>(), n)
    }
    pub fn weight(&self, run: &[char]) -> f64 {
        let c = self.count.get(run).copied().unwrap_or(0) as f64;
        let parent = if run.len() == 1 { self.total } else { self.count.get(&run[..run.len() - 1]).copied().unwrap_or(0) };
        c / parent as f64
    }
    /// The postings of a gram: None if it occurs nowhere or in more than 80 % of the products.
    pub fn postings(&self, gram: &[char]) -> Option<&Vec<usize>> {
        let v = self.raw_postings.get(gram)?;
        // (ascending)
        let distinct = 1 + v.windows(2).filter(|w| w[0] != w[1]).count();
        if distinct * 100 > self.products * 80 {
            None
        } else {
            Some(v)
        }
    }
    pub fn all_postings(&self) -> BTreeMap<&Vec<char>, &Vec<usize>> {
        self.raw_postings.keys().filter_map(|k| self.postings(k).map(|v| (k, v))).collect()
    }

    /// Every gram reachable from the query within the correction budget, with its highest likelihood.
    /// Explicit-state search over (characters consumed, path in the tree, cost, step before, likelihood).
    pub fn reachable(&self, query: &[char]) -> (BTreeMap<Vec<char>, f64>, usize) {
        let n = self.n;
        let limit = n / 3;
        let empty = BTreeSet::new();
        let mut best: BTreeMap<Vec<char>, f64> = BTreeMap::new();
        if !self.kids.get(&[][..]).map_or(false, |k| k.contains(&query[0])) {
            return (best, 0);
        }
        #[derive(Clone, PartialEq, Eq, Hash)]
        struct S {
            used: usize,
            path: Vec<char>,
            cost: usize,
            may_drop: bool,
            like: u64,
        }
        let mut seen = HashSet::new();
        let mut todo = vec![S { used: 1, path: vec![query[0]], cost: 0, may_drop: false, like: 1f64.to_bits() }];
        while let Some(s) = todo.pop() {
            if !seen.insert(s.clone()) {
                continue;
            }
            let like = f64::from_bits(s.like);
            if s.path.len() == n {
                let e = best.entry(s.path.clone()).or_insert(like);
                if like > *e {
                    *e = like;
                }
                continue;
            }
            let typed = query.get(s.used).copied();
            for c in self.kids.get(&s.path).unwrap_or(&empty) {
                let mut path = s.path.clone();
                path.push(*c);
                let l = (like * self.weight(&path)).to_bits();
                let next = (s.used + 1).min(n);
                if Some(*c) == typed {
                    todo.push(S { used: next, path, cost: s.cost, may_drop: true, like: l });
                } else if s.cost < limit {
                    // another character instead of the typed one
                    todo.push(S { used: next, path: path.clone(), cost: s.cost + 1, may_drop: true, like: l });
                    // a forgotten character
                    todo.push(S { used: s.used, path, cost: s.cost + 2, may_drop: true, like: l });
                }
            }
            if s.cost < limit && s.may_drop {
                if let Some(c) = typed {
                    // the typed character takes the place of the one before it
                    let mut path = s.path.clone();
                    path.pop();
                    if self.kids.get(&path).map_or(false, |k| k.contains(&c)) {
                        path.push(c);
                        todo.push(S { used: s.used + 1, path, cost: s.cost + 1, may_drop: false, like: s.like });
                    }
                }
            }
        }
        (best, seen.len())
    }

    /// The acceptable answers of a lookup: grams whose likelihood equals the maximum (up to rounding).
    pub fn lookup(&self, query: &[char]) -> Vec<(Vec<char>, f64)> {
        let (best, _) = self.reachable(query);
        let max = best.values().copied().fold(0.0, f64::max);
        best.into_iter().filter(|(_, l)| *l >= max * (1.0 - 1e-5)).collect()
    }
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-4 * a.abs().max(b.abs()).max(1e-3)
}

/// Scores per catalogue position for each combination of tied lookups (None: too many combinations).
pub fn scores(r: &Ref, query: &[char], max_combinations: usize) -> Option<Vec<BTreeMap<usize, f64>>> {
    let mut all = vec![BTreeMap::new()];
    if query.len() < r.n {
        return Some(all);
    }
    for w in query.windows(r.n) {
        let answers = r.lookup(w);
        if answers.is_empty() {
            continue;
        }
        let mut next: Vec<BTreeMap<usize, f64>> = Vec::new();
        for (gram, like) in &answers {
            for base in &all {
                let mut m = base.clone();
                if let Some(ps) = r.postings(gram) {
                    for p in ps {
                        *m.entry(*p).or_insert(0.0) += like;
                    }
                }
                if !next.contains(&m) {
                    next.push(m);
                }
            }
        }
        if next.len() > max_combinations {
            return None;
        }
        all = next;
    }
    Some(all)
}

/// Is `got` (catalogue positions) exactly the scored products, best first (ties in any order)?
pub fn ranked_ok(scores: &BTreeMap<usize, f64>, got: &[usize]) -> bool {
    if got.len() != scores.len() {
        return false;
    }
    let mut seen = BTreeSet::new();
    let mut last = f64::INFINITY;
    for g in got {
        let Some(s) = scores.get(g) else { return false };
        if !seen.insert(*g) || (*s > last && !close(*s, last)) {
            return false;
        }
        last = last.min(*s);
    }
    true
}

pub fn lower(s: &str) -> Vec<char> {
    s.chars().flat_map(char::to_lowercase).collect()
}

/// The documented shortening of a stored text.
pub fn shortened(s: &str, limit: usize) -> String {
    if s.len() <= limit {
        return s.to_string();
    }
    let by_word = s.char_indices().filter(|(o, c)| *c == ' ' && *o >= 1 && *o <= limit).map(|(o, _)| o).last();
    let cut = by_word.unwrap_or_else(|| (0..=limit).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0));
    s[..cut].to_string()
}

/// (equal characters at equal positions, characters of the shorter one); (0, 1) if under three.
pub fn similarity(a: &str, b: &str) -> (u64, u64) {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let len = a.len().min(b.len());
    if len < 3 {
        return (0, 1);
    }
    let eq = (0..len).filter(|i| a[*i] == b[*i]).count();
    (eq as u64, len as u64)
}

/// All strings over `alphabet` with `min..=max` characters, shortest first.
pub fn strings(alphabet: &[char], min: usize, max: usize) -> Vec<String> {
    let mut out = Vec::new();
    let mut level = vec![String::new()];
    for len in 0..=max {
        if len >= min {
            out.extend(level.iter().cloned());
        }
        level = level.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}"))).collect();
    }
    out
}
