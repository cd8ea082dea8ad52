//! C21: search ignores letter case in every script.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::OnceLock;

use vharness::engine::*;
use vharness::model::*;
use vharness::sys;

/// All characters with the same lower-case form, by that form.
fn classes() -> &'static BTreeMap<String, Vec<char>> {
    static C: OnceLock<BTreeMap<String, Vec<char>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut m: BTreeMap<String, Vec<char>> = BTreeMap::new();
        for c in (1..=0x10_FFFF).filter_map(char::from_u32) {
            m.entry(c.to_lowercase().collect()).or_default().push(c);
        }
        m.retain(|_, v| v.len() > 1);
        m
    })
}

/// The characters that may stand for c.
fn forms(c: char) -> Vec<char> {
    classes().get(&c.to_lowercase().collect::<String>()).cloned().unwrap_or_else(|| vec![c])
}

fn ids(s: &sys::Session, q: &str, cap: usize) -> Result<Vec<String>, String> {
    s.ids(q, None, &sys::no_filter(), cap)?.ok_or_else(|| format!("searching {q:?} gives no result object"))
}
fn set(v: &[String]) -> BTreeSet<String> {
    v.iter().cloned().collect()
}

const BATCH: u32 = 256;

/// Filler characters that are not in the batch and have no case.
fn filler(batch: u32, i: u32, k: u32) -> char {
    let first = batch * BATCH;
    let base = if (0x4E00..0x9F00).contains(&first) { 0xAC00 } else { 0x4E00 };
    char::from_u32(base + i * 6 + k).unwrap_or('?')
}

/// Seven characters with c at one of them; from place 10 on five characters, which is one gram.
fn batch_text(batch: u32, i: u32, c: char, place: u32) -> String {
    let (len, place) = if place >= 10 { (4, place - 10) } else { (6, place) };
    let mut t: Vec<char> = (0..len).map(|k| filler(batch, i, k)).collect();
    t.insert(place as usize, c);
    t.into_iter().collect()
}

/// 256 characters, one product each: found by the text as it is and in every other case form, and
/// likewise when the catalogue itself is written in another form.
fn batch(number: u32, field: u32, place: u32, cx: &mut Cx) -> Result<(), String> {
    let chars: Vec<char> = (0..BATCH).filter_map(|k| char::from_u32(number * BATCH + k)).filter(|c| *c != '\0').collect();
    if chars.is_empty() {
        return Ok(());
    }
    let make = |write: &dyn Fn(char) -> char| -> Vec<P> {
        let mut ps: Vec<P> = chars
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let t = batch_text(number, i as u32, write(*c), place);
                let p = P::new(&format!("{:04X}", *c as u32));
                match field {
                    0 => p.desc(&t),
                    1 => p.title(&t),
                    _ => p.vendor(&t),
                }
            })
            .collect();
        ps.push(P::new("other").desc("\u{AC00}\u{4E00}"));
        ps
    };
    // the catalogue as it is, then with the first and the last other form of each character
    let cased = chars.iter().any(|c| forms(*c).len() > 1);
    let writers: Vec<Box<dyn Fn(char) -> char>> = if cased {
        vec![Box::new(|c| c), Box::new(|c| forms(c)[0]), Box::new(|c| *forms(c).last().unwrap_or(&c))]
    } else {
        vec![Box::new(|c| c)]
    };
    for (w, write) in writers.iter().enumerate() {
        let ps = make(write);
        let image = sys::image(&ps)?;
        sys::must_load(&image)?;
        let s = sys::Session::new()?;
        for (i, c) in chars.iter().enumerate() {
            let mut plain: Option<Vec<String>> = None;
            for d in forms(*c) {
                let q = batch_text(number, i as u32, d, place);
                let got = ids(&s, &q, 2000)?;
                if !got.contains(&ps[i].id) {
                    return Err(format!("U+{:04X} (catalogue form {w}) is not found by typing {q:?} (U+{:04X}): {got:?}", *c as u32, d as u32));
                }
                match &plain {
                    None => plain = Some(got.clone()),
                    Some(p) if set(p) == set(&got) => (),
                    Some(p) => return Err(format!("{q:?} finds {got:?}, another case form of it finds {p:?}")),
                }
                cx.outcome(&(c, got.len()));
                cx.step(1);
                cx.trace();
            }
        }
        cx.state(&(number, field, place, w));
    }
    Ok(())
}

/// Letters whose case mappings are regular, irregular, threefold, title-cased, expanding, or absent.
const LETTERS: [char; 15] = ['a', 'k', 's', 'i', 'å', 'σ', 'ς', 'ß', 'ǆ', 'ж', 'ⴀ', '\u{10428}', 'İ', 'ﬁ', '語'];

/// All ways to write a text in other case forms.
fn spellings(t: &[char]) -> Vec<String> {
    let mut out = vec![String::new()];
    for c in t {
        let f = forms(*c);
        out = out.iter().flat_map(|s| f.iter().map(move |d| format!("{s}{d}"))).collect();
    }
    out
}

/// Confidences of the products for every spelling, from the index itself, and the exported result.
fn words(text: &[char], others: &[&str], cx: &mut Cx) -> Result<(), String> {
    let plain: String = text.iter().collect();
    let mut ps: Vec<P> = others.iter().enumerate().map(|(i, o)| P::new(&format!("o{i}")).desc(o)).collect();
    ps.push(P::new("me").desc(&plain));
    let r = Ref::of(&ps, 5);
    let options = scores(&r, &lower(&plain), 256);
    sys::must_load(&sys::image(&ps)?)?;
    let s = sys::Session::new()?;
    let mut first: Option<Vec<String>> = None;
    for q in spellings(text) {
        let got = ids(&s, &q, 50)?;
        let positions = sys::positions(&ps, &got)?;
        if let Some(options) = &options {
            if !options.iter().any(|m| ranked_ok(m, &positions)) {
                return Err(format!("product text {plain:?}: searching {q:?} gives {got:?}, expected by the lower-cased texts {:?}", options.first()));
            }
        }
        match &first {
            None => first = Some(got.clone()),
            Some(f) if set(f) == set(&got) => (),
            Some(f) => return Err(format!("product text {plain:?}: searching {q:?} gives {got:?}, another case form of it {f:?}")),
        }
        cx.outcome(&got);
        cx.step(1);
        cx.trace();
        cx.state(&(text, &q));
    }
    Ok(())
}

/// The catalogue written in every case form answers alike.
fn catalogues(text: &[char], others: &[&str], cx: &mut Cx) -> Result<(), String> {
    let mut first: Option<BTreeMap<String, BTreeSet<String>>> = None;
    let qs = {
        let sp = spellings(text);
        [sp.first().cloned(), sp.last().cloned(), sp.get(sp.len() / 2).cloned()]
    };
    for t in spellings(text) {
        let mut ps: Vec<P> = others.iter().enumerate().map(|(i, o)| P::new(&format!("o{i}")).title(o)).collect();
        let c: Vec<char> = t.chars().collect();
        ps.push(P::new("me").desc(&c[..2].iter().collect::<String>()).title(&c[2..4].iter().collect::<String>()).vendor(&c[4..].iter().collect::<String>()));
        sys::must_load(&sys::image(&ps)?)?;
        let s = sys::Session::new()?;
        let mut all = BTreeMap::new();
        for q in qs.iter().flatten() {
            all.insert(q.clone(), set(&ids(&s, q, 50)?));
            cx.step(1);
            cx.trace();
        }
        cx.state(&("catalogue", &t));
        match &first {
            None => first = Some(all),
            Some(f) if *f == all => (),
            Some(f) => return Err(format!("a catalogue with {t:?} answers {all:?}, written in another case {f:?}")),
        }
    }
    Ok(())
}

const CONFUSED: [&[&str]; 22] = [
    &["σ", "ς"], &["ς", "σ"], &["Σ", "ς", "ϲ"], &["i", "ı"], &["İ", "i", "ı"], &["ß", "ss"], &["ẞ", "ss", "ſs"], &["ﬁ", "fi"], &["ǆ", "dž", "ǳ"], &["s", "ſ"], &["ſ", "s"], &["µ", "μ"], &["K", "κ"], &["å", "a\u{30a}", "a"], &["é", "e\u{301}", "e"], &["ΐ", "ϊ", "ι"], &["ŉ", "ʼn", "n"], &["ᾳ", "αι"], &["Ⅳ", "IV", "iv"], &["ａ", "a"], &["ⅷ", "viii"], &["Ω", "Ο", "o"],
];

/// A text of lower-case letters with c at one place; the same with each neighbour instead; and the
/// plain letters. Typing the text in every case form lists exactly what the reference says.
fn neighbours(group: &[&str], place: usize, ending: usize, fields: usize, cx: &mut Cx) -> Result<(), String> {
    let with = |c: &str| -> String {
        let mut t = String::new();
        for k in 0..8 {
            if k == place {
                t.push_str(c);
            }
            t.push(['m', 'o', 'r', 'b', 'd', 'l', 'u', 'p'][k]);
        }
        if place >= 8 {
            t.push_str(c);
        }
        format!("{t}{}", ["", " kilo", ", x"][ending])
    };
    let text = with(group[0]);
    let mut ps: Vec<P> = group.iter().map(|c| with(c)).enumerate().map(|(i, t)| P::new(&format!("{i}")).desc(&if fields == 0 { t.clone() } else { String::new() }).title(&if fields == 1 { t } else { String::new() })).collect();
    ps.push(P::new("far").desc("xxxxxx yyyy"));
    let r = Ref::of(&ps, 5);
    sys::must_load(&sys::image(&ps)?)?;
    let s = sys::Session::new()?;
    let special: Vec<char> = group[0].chars().collect();
    let free = |c: &char| special.contains(c) || "obp".contains(*c);
    // the text with the chosen letters in other case forms
    let cased = spellings(&text.chars().filter(free).collect::<Vec<_>>()).into_iter().map(|sp| {
        let mut it = sp.chars();
        text.chars().map(|c| if free(&c) { it.next().unwrap_or(c) } else { c }).collect::<String>()
    });
    for q in group.iter().map(|g| with(g)).chain(cased) {
        let upto = q.chars().rev().position(|c| !"mrdlu, xki".contains(c) && !"obp".contains(c.to_ascii_lowercase())).map_or(0, |k| q.chars().count() - k);
        // as it is, cut after the special letter, and with a mistake before it (which uses up the corrections)
        let mistaken: String = q.chars().enumerate().map(|(k, c)| if k + 3 == upto { 'q' } else { c }).collect();
        let cut: String = q.chars().take(upto).collect();
        let both: String = mistaken.chars().take(upto).collect();
        for q in [q.clone(), cut, mistaken, both] {
            let got = ids(&s, &q, 50)?;
            let positions = sys::positions(&ps, &got)?;
            if let Some(options) = scores(&r, &lower(&q), 256) {
                if !options.iter().any(|m| ranked_ok(m, &positions)) {
                    return Err(format!("catalogue {:?}: searching {q:?} gives {got:?}, expected by the lower-cased texts {:?}", ps.iter().map(|p| format!("{}{}", p.desc, p.title)).collect::<Vec<_>>(), options.first()));
                }
            }
            cx.outcome(&got);
            cx.step(1);
            cx.trace();
            cx.state(&(&text, &q));
        }
    }
    Ok(())
}

const OTHERS: [&str; 3] = ["AKAKAKA", "åsσß語", "жжжжж"];

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let batches = 0x11_0000u64 / u64::from(BATCH);
    if tier == Tier::Quick {
        f.push(Family::new("every-character", 0x2_0000 / u64::from(BATCH), 8, |i| format!("U+{:04X}..U+{:04X}, field {}, place {}", i * 256, i * 256 + 255, i % 3, i % 5), |i, cx| {
            sys::set_seed(i + 1);
            batch(i as u32, (i % 3) as u32, (i % 5) as u32, cx)
        }));
    }
    // every character that has another case form, in every field and place (all characters in thorough)
    let cased: Vec<u64> = match tier {
        Tier::Quick => {
            let s: BTreeSet<u64> = classes().values().flatten().map(|c| u64::from(*c as u32) / u64::from(BATCH)).collect();
            s.into_iter().collect()
        }
        Tier::Thorough => (0..batches).collect(),
    };
    let r = [cased.len() as u64, 3, tier.pick(3, 7)];
    let c2 = cased.clone();
    let c3 = cased.clone();
    f.push(Family::new("cased-characters", product(&r), tier.pick(10, 60), move |i| { let d = digits(i, &r); format!("U+{:04X}..U+{:04X}, field {}, place {}", c2[d[0]] * 256, c2[d[0]] * 256 + 255, d[1], d[2]) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i + 1);
        batch(cased[d[0]] as u32, d[1] as u32, d[2] as u32, cx)
    }));
    // the same in texts that are one gram: leaving out anything leaves nothing to search for
    let spaces: BTreeSet<u64> = (0..=0x10_FFFF).filter_map(char::from_u32).filter(|c| c.is_whitespace() || c.is_control()).map(|c| u64::from(c as u32) / u64::from(BATCH)).collect();
    let one: Vec<(u64, u32)> = (0..tier.pick(0x2_0000 / u64::from(BATCH), batches))
        .flat_map(|b| if c3.contains(&b) || spaces.contains(&b) || tier == Tier::Thorough { (10..15).map(|p| (b, p)).collect() } else { vec![(b, 10 + (b % 5) as u32)] })
        .collect();
    let one = Rc::new(one);
    let o2 = one.clone();
    f.push(Family::new("one-gram", one.len() as u64, 10, move |i| format!("U+{:04X}..U+{:04X} in texts of five characters, place {}", o2[i as usize].0 * 256, o2[i as usize].0 * 256 + 255, o2[i as usize].1 - 10), move |i, cx| {
        let (b, p) = one[i as usize];
        sys::set_seed(i + 1);
        batch(b as u32, (i % 3) as u32, p, cx)
    }));
    let len = tier.pick(5usize, 6);
    let n = tier.pick(5u64, 8);
    let pick: Rc<Vec<char>> = Rc::new(tier.pick(vec!['k', 'å', 'σ', 'ǆ', 'İ'], vec!['k', 'å', 'σ', 'ǆ', 'İ', 'ß', '語', 'ς']));
    let p2 = pick.clone();
    f.push(Family::new("every-spelling", n.pow(len as u32), 100, move |i| format!("text {:?}, every spelling of the query", digits(i, &vec![n; len]).iter().map(|k| p2[*k]).collect::<String>()), move |i, cx| {
        let t: Vec<char> = digits(i, &vec![n; len]).iter().map(|k| pick[*k]).collect();
        sys::set_seed(i + 1);
        words(&t, &OTHERS, cx)
    }));
    let r = [15u64; 3];
    f.push(Family::new("every-letter", product(&r), 100, move |i| format!("{:?} around three more, every spelling of the query", digits(i, &r).iter().map(|k| LETTERS[*k]).collect::<String>()), move |i, cx| {
        let d = digits(i, &r);
        let t: Vec<char> = vec!['a', LETTERS[d[0]], LETTERS[d[1]], 'q', LETTERS[d[2]], 'x'];
        sys::set_seed(i + 1);
        words(&t, &OTHERS, cx)
    }));
    // characters that other ways to ignore case (or normalise) would confuse: neighbours in the catalogue
    let places = 9usize;
    let r = [CONFUSED.len() as u64, places as u64, 3, 2];
    f.push(Family::new("confusable-neighbours", product(&r), 30, move |i| { let d = digits(i, &r); format!("{:?} at place {} with {:?} as neighbours, ending {}, field order {}", CONFUSED[d[0]][0], d[1], &CONFUSED[d[0]][1..], d[2], d[3]) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i + 1);
        neighbours(CONFUSED[d[0]], d[1], d[2], d[3], cx)
    }));
    let m = tier.pick(3u64, 7);
    let r = vec![m; 5];
    let r2 = r.clone();
    let set5 = ['k', 'å', 'ǆ', 'σ', 'ж', 'a', 'ß'];
    f.push(Family::new("every-catalogue-spelling", product(&r), 20, move |i| format!("text {:?} spelled in every way over three fields", digits(i, &r2).iter().map(|k| set5[*k]).collect::<String>()), move |i, cx| {
        let t: Vec<char> = digits(i, &r).iter().map(|k| set5[*k]).collect();
        sys::set_seed(i + 1);
        catalogues(&t, &OTHERS, cx)
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C21",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["case forms are characters with the same lower-case mapping in the Unicode tables of the installed Rust standard library", "texts contain no NUL", "confidences are observed through the order of the result"],
        bounds: |t| vec![
            t.pick("every Unicode scalar value below U+20000 in one field and place; every one with a case form in every field and 3 places, catalogue and query in every form", "every Unicode scalar value in every field and 7 places, catalogue and query in every form").into(),
            t.pick("texts of five characters (one gram): every scalar value below U+20000 at one place, those near case forms and white space at every place", "texts of five characters (one gram): every scalar value at every place").into(),
            t.pick("every text of 5 letters of 5 classes in every spelling of the query", "every text of 6 letters of 8 classes in every spelling of the query").into(),
            "22 groups of characters that other case or compatibility mappings would confuse, at every place of a text, catalogue with each of them, query in every spelling".into(),
            t.pick("every spelling of every text of 5 letters of 3 classes in the catalogue", "every spelling of every text of 5 letters of 7 classes in the catalogue").into(),
        ],
    })
}
