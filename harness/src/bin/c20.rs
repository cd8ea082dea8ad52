//! C20: stored descriptions are word-aligned prefixes within the length limit.
use std::rc::Rc;

use indexer_lib::serialize::{serialize_string_with_limit, Deserializable};
use vharness::engine::*;
use vharness::model::*;
use vharness::sys;

fn stored(s: &str, limit: usize) -> Result<String, String> {
    let mut out = Vec::new();
    guarded(|| serialize_string_with_limit(s, limit, &mut |b| out.push(b)))?;
    out.extend([0xAA, 0x55]);
    match guarded(|| String::deserialize(&out).map(|(rest, s)| (rest.to_vec(), s)))? {
        Some((rest, got)) if rest == [0xAA, 0x55] => Ok(got),
        Some((rest, got)) => Err(format!("{got:?} is decoded and {} bytes are left instead of 2", rest.len())),
        None => Err("the stored form cannot be decoded".into()),
    }
}

fn check(s: &str, limit: usize, cx: &mut Cx) -> Result<(), String> {
    let want = shortened(s, limit);
    let got = stored(s, limit).map_err(|e| format!("limit {limit}, {s:?}: {e}"))?;
    if got != want {
        return Err(format!("limit {limit}: {s:?} is stored as {got:?} instead of {want:?}"));
    }
    // what the statement implies, independently of the construction of `want`
    if !s.starts_with(&got) || got.len() > limit.max(s.len().min(limit)) {
        return Err(format!("limit {limit}: {got:?} is no prefix of {s:?} within the limit"));
    }
    if got.len() < s.len() {
        let by_word = s[got.len()..].starts_with(' ');
        let next = s[got.len()..].chars().next().map_or(0, char::len_utf8);
        if !by_word && (got.len() + next <= limit || (1..=limit.min(s.len() - 1)).any(|i| s.as_bytes()[i] == b' ')) {
            return Err(format!("limit {limit}: {got:?} is neither word-aligned nor the longest prefix of {s:?}"));
        }
    }
    cx.state(&(s, limit));
    cx.outcome(&(got.len(), s.len()));
    cx.step(2);
    cx.trace();
    Ok(())
}

const CHARS: [char; 5] = ['a', 'é', '語', '\u{1F47D}', ' '];

fn text_of(i: u64, len: usize, n: u64) -> String {
    digits(i, &vec![n; len]).into_iter().map(|d| CHARS[d]).collect()
}

/// A text of `total` bytes (rounded up to whole characters) of characters of one width with spaces at byte
/// offsets as near as possible to the given ones.
fn filled(c: char, total: usize, spaces: &[usize]) -> String {
    let mut s = String::new();
    let mut left: Vec<usize> = spaces.to_vec();
    while s.len() < total {
        if let Some(k) = left.iter().position(|p| *p <= s.len()) {
            left.remove(k);
            s.push(' ');
        } else {
            s.push(c);
        }
    }
    s
}

/// The description of a product found by searching, and its cut-off part is still searchable.
fn end_to_end(c: char, space: usize, at: usize, len: usize, cx: &mut Cx) -> Result<(), String> {
    // `at`: byte offset where the searched word starts
    let mut desc = filled(c, at, &[space]);
    desc.push_str(&token(7));
    desc.push_str(&filled('b', len.saturating_sub(desc.len()), &[3]));
    let ps = vec![P::new("x").desc("other").title("one"), P::new("y").desc(&desc).title("two"), P::new("z").desc("words").title("three")];
    let image = sys::image(&ps)?;
    sys::must_load(&image)?;
    let s = sys::Session::new()?;
    let found = s.found(&token(7), None, &sys::no_filter(), 10)?.ok_or("no result")?;
    if found.len() != 1 || found[0].id != "y" {
        return Err(format!("searching the word at byte {at} of {desc:?} finds {:?}", found.iter().map(|f| &f.id).collect::<Vec<_>>()));
    }
    let want = shortened(&desc, 100);
    if found[0].desc != want {
        return Err(format!("{desc:?} is reported as {:?} instead of {want:?}", found[0].desc));
    }
    cx.state(&("e2e", &desc));
    cx.outcome(&want.len());
    cx.step(3);
    cx.trace();
    Ok(())
}

/// Many descriptions in one image, read back from it and through a search.
fn stored_with_others(descs: &[String], cx: &mut Cx) -> Result<(), String> {
    let ps: Vec<P> = descs.iter().enumerate().map(|(i, d)| P::new(&format!("{i}")).desc(d).title(&token(i)).vendor(["v", ""][i % 2])).collect();
    let image = sys::image(&ps)?;
    let (index, _) = sys::must_decode::<5>(&image)?;
    sys::must_load(&image)?;
    let s = sys::Session::new()?;
    for (i, d) in descs.iter().enumerate() {
        let want = shortened(d, 100);
        let got = &index.product_container.products[i].description;
        if *got != want {
            return Err(format!("{d:?} is stored as {got:?} instead of {want:?}"));
        }
        cx.state(&("stored", d));
        cx.outcome(&want.len());
        cx.step(1);
        cx.trace();
    }
    for i in (0..descs.len()).step_by(7) {
        let found = s.found(&token(i), None, &sys::no_filter(), 10)?.ok_or("no result")?;
        let Some(f) = found.iter().find(|f| f.id == format!("{i}")) else { return Err(format!("the product with description {:?} is not found by its title", descs[i])) };
        if f.desc != shortened(&descs[i], 100) {
            return Err(format!("{:?} is reported as {:?}", descs[i], f.desc));
        }
        cx.step(1);
    }
    Ok(())
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let max = tier.pick(8usize, 9);
    for len in 0..=max {
        let total = 5u64.pow(len as u32);
        let limits = tier.pick(16usize, 24);
        f.push(Family::new(["len-0", "len-1", "len-2", "len-3", "len-4", "len-5", "len-6", "len-7", "len-8", "len-9"][len], total, 30000, move |i| format!("{:?}, limits 0..{limits}", text_of(i, len, 5)), move |i, cx| {
            let s = text_of(i, len, 5);
            for l in (0..=limits).chain([s.len(), s.len() + 1, 100, 1000]) {
                check(&s, l, cx)?;
            }
            Ok(())
        }));
    }
    // long runs over one narrow and one wide character and spaces
    let len = tier.pick(11usize, 14);
    f.push(Family::new("two-letters-and-space", 3u64.pow(len as u32), 30000, move |i| format!("{:?}", digits(i, &vec![3; len])), move |i, cx| {
        let s: String = digits(i, &vec![3; len]).into_iter().map(|d| ['a', '\u{1F47D}', ' '][d]).collect();
        for l in [1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 20, s.len().saturating_sub(1), s.len()] {
            check(&s, l, cx)?;
        }
        Ok(())
    }));
    // around the limit of 100 bytes: width x length x one or two spaces
    let lens: Vec<usize> = (90..=112).chain([127, 128, 129, 150, 255, 256, 257, 1000]).collect();
    let r = [4u64, lens.len() as u64, 114];
    let lens = Rc::new(lens);
    let l2 = lens.clone();
    f.push(Family::new("around-100", product(&r), 500, move |i| { let d = digits(i, &r); format!("{:?} repeated to {} bytes, a space at {} and another anywhere", CHARS[d[0]], l2[d[1]], d[2]) }, move |i, cx| {
        let d = digits(i, &r);
        
        check(&filled(CHARS[d[0]], lens[d[1]], &[d[2]]), 100, cx)?;
        check(&filled(CHARS[d[0]], lens[d[1]], &[]), 100, cx)?;
        for second in 0..d[2] {
            let s = filled(CHARS[d[0]], lens[d[1]], &[second, d[2]]);
            check(&s, 100, cx)?;
        }
        Ok(())
    }));
    // other white space is no word boundary; mixed widths
    let odd = ['\t', '\n', '\u{a0}', '\u{2003}', '\u{3000}', '-', '.', ',', '\u{0}', '\u{200b}'];
    let r = [odd.len() as u64, 112, 4];
    f.push(Family::new("other-separators", product(&r), 500, move |i| { let d = digits(i, &r); format!("{:?} at byte {} of a text of {:?}", odd[d[0]], d[1], CHARS[d[2]]) }, move |i, cx| {
        let d = digits(i, &r);
        for space in [None, Some(d[1] / 2), Some(d[1].saturating_sub(1)), Some(d[1] + 2)] {
            let mut s = filled(CHARS[d[2]], d[1], &space.into_iter().filter(|s| *s < d[1]).collect::<Vec<_>>());
            s.push(odd[d[0]]);
            s.push_str(&filled(CHARS[d[2]], 120usize.saturating_sub(s.len()), &space.into_iter().filter(|s| *s > d[1]).map(|s| s - d[1]).collect::<Vec<_>>()));
            check(&s, 100, cx)?;
        }
        Ok(())
    }));
    // large limits
    let limits: Vec<usize> = tier.pick(vec![126, 127, 128, 129, 253, 254, 255, 256, 257, 1000, 16_383, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 200_000], (101..300).chain([1000, 16_383, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 65_800, 70_000, 131_072, 200_000, 1 << 20, (1 << 24) + 1]).collect());
    let r = [4u64, limits.len() as u64];
    let l2 = limits.clone();
    f.push(Family::new("large-limits", product(&r), 5, move |i| { let d = digits(i, &r); format!("{:?}, limit {}", CHARS[d[0]], l2[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let l = limits[d[1]];
        for len in [l - 1, l, l + 1, l + 5, l + 70, l + 300] {
            for spaces in [vec![], vec![1], vec![l - 1], vec![l], vec![l + 1], vec![l / 2], vec![l.saturating_sub(120), l + 1], vec![100, l + 2]] {
                check(&filled(CHARS[d[0]], len, &spaces), l, cx).map_err(vharness::shapes::cut)?;
            }
        }
        Ok(())
    }));
    // texts that shops really have around the cut
    let odd = vharness::shapes::odd();
    let r = [odd.len() as u64, 2, 4];
    f.push(Family::new("odd-texts", product(&r), 200, move |i| { let d = digits(i, &r); format!("{:?} up to the cut, then {}, fill {:?}", odd[d[0]], ["more", "nothing"][d[1]], CHARS[d[2]]) }, move |i, cx| {
        let d = digits(i, &r);
        let s = odd[d[0]];
        for at in (70..=104).chain([0, 1, 2]) {
            for space in [None, Some(50), Some(68)] {
                let mut t = filled(CHARS[d[2]], at, &space.into_iter().collect::<Vec<_>>());
                t.push_str(s);
                if d[1] == 0 {
                    t.push_str(&filled('b', 30, &[]));
                }
                check(&t, 100, cx)?;
                check(&t.repeat(3), 100, cx)?;
            }
        }
        Ok(())
    }));
    // beginnings and ends of white space and other oddities, through the image
    let edge = [' ', '\n', '\r', '\t', '\u{a0}', '\u{2003}', '\u{FEFF}', '\u{200b}', '"', '<', '&', '.'];
    let mut ends: Vec<String> = strings(&edge, 0, 2);
    ends.extend(strings(&edge[..5], 3, 3));
    ends.extend(vharness::shapes::odd().iter().map(|s| (*s).to_string()));
    let ends = Rc::new(ends);
    let per = 100usize;
    let fills = ["", "a chair", "a", "é", "語 \u{1F47D}"];
    let r = [((ends.len() + per - 1) / per) as u64, 5, 9];
    let e2 = ends.clone();
    f.push(Family::new("ends", product(&r), 2, move |i| { let d = digits(i, &r); format!("descriptions that begin or end with {:?} and so on, around {:?}, shape {}", e2[d[0] * per], fills[d[1]], d[2]) }, move |i, cx| {
        let d = digits(i, &r);
        let fill = fills[d[1]];
        let descs: Vec<String> = ends[d[0] * per..ends.len().min((d[0] + 1) * per)]
            .iter()
            .map(|e| {
                let long = |n: usize| { let mut t = String::new(); while t.len() < n { t.push_str(if fill.is_empty() { "word " } else { fill }) } t };
                match d[2] {
                    0 => format!("{e}{fill}"),
                    1 => format!("{fill}{e}"),
                    2 => format!("{e}{fill}{e}"),
                    3 => format!("{e}{}", long(99 - e.len().min(90))),
                    4 => format!("{e}{}", long(101)),
                    5 => format!("{}{e}", long(100 - e.len().min(90))),
                    6 => format!("{}{e}", long(97)),
                    7 => format!("{e}{}{e}{}", long(90), long(30)),
                    _ => format!("{}{e}{}", long(99), long(200)),
                }
            })
            .collect();
        sys::set_seed(i + 1);
        stored_with_others(&descs, cx)
    }));
    // through indexing, loading and searching
    let spaces: Vec<usize> = tier.pick(vec![0, 1, 2, 50, 80, 90, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 110], (0..=115).collect());
    let starts: Vec<usize> = tier.pick(vec![0, 80, 84, 85, 86, 90, 95, 98, 99, 100, 101, 102, 110, 120, 300], (0..=130).step_by(2).chain([300, 1000]).collect());
    let r = [4u64, spaces.len() as u64, starts.len() as u64, 3];
    let (sp, st) = (spaces.clone(), starts.clone());
    f.push(Family::new("through-the-index", product(&r), 60, move |i| { let d = digits(i, &r); format!("{:?}, space at {}, searched word at byte {}, {} bytes", CHARS[d[0]], sp[d[1]], st[d[2]], [0, 100, 140][d[3]]) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i + 1);
        end_to_end(CHARS[d[0]], spaces[d[1]], starts[d[2]], [0, 100, 140][d[3]], cx)
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C20",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["a word boundary is the space character U+0020"],
        bounds: |t| vec![
            t.pick("every text of up to 8 characters over {1, 2, 3, 4-byte character, space} with limits 0..16 and beyond its length", "every text of up to 9 characters over {1, 2, 3, 4-byte character, space} with limits 0..24 and beyond its length").into(),
            t.pick("every text of 11 characters over {1-byte, 4-byte, space} with 15 limits", "every text of 14 characters over {1-byte, 4-byte, space} with 15 limits").into(),
            "limit 100: 4 character widths x 31 lengths x every pair of spaces; other separators at every byte".into(),
            t.pick("limits from 126 to 200 000 bytes, texts around them, spaces around them", "every limit from 101 to 299 and others up to 2^24 + 1, texts around them, spaces around them").into(),
            format!("{} texts as shops have them (separators, spellings of nothing, markup, addresses, letters that look alike) at every byte around the cut", vharness::shapes::odd().len()),
            "descriptions that begin, end or are cut at every one or two of 12 white-space and markup characters, three of 5, and texts as shops have them: 5 fillings x 9 shapes through the image".into(),
            "descriptions through indexing, loading and searching, searched by a word before, across and after the cut".into(),
        ],
    })
}
