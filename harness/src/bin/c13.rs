use std::rc::Rc;

use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

fn catalogue(tags: &[String]) -> Vec<P> {
    let mut p = P::new("a").desc("abcde");
    for t in tags {
        p = p.tag(t);
    }
    vec![p, P::new("b").desc("fghij")]
}

/// 5 * equal > 4 * length
fn above((eq, len): (u64, u64)) -> bool {
    5 * eq > 4 * len
}
fn less(a: (u64, u64), b: (u64, u64)) -> bool {
    a.0 * b.1 < b.0 * a.1
}

fn ask(tags: &[String], query: &str, cx: &mut Cx) -> Result<(), String> {
    let got = sys::suggest(query).map_err(|e| format!("tags {tags:?}, query {query:?}: {e}"))?;
    cx.step(1);
    cx.trace();
    let mut best: Option<(u64, u64)> = None;
    for w in query.split(' ') {
        for t in tags {
            let s = similarity(t, w);
            if above(s) && best.map_or(true, |b| less(b, s)) {
                best = Some(s);
            }
        }
    }
    match (got, best) {
        (None, None) => {
            cx.outcome(&0u8);
            Ok(())
        }
        (None, Some((e, l))) => Err(format!("tags {tags:?}: nothing is suggested for {query:?} although a pair has similarity {e}/{l}")),
        (Some((t, w)), None) => Err(format!("tags {tags:?}: {t:?} is suggested for {w:?} of {query:?} although no pair is above 0.8")),
        (Some((t, w)), Some(b)) => {
            if !tags.contains(&t) || !query.split(' ').any(|x| x == w) {
                return Err(format!("tags {tags:?}: the suggestion for {query:?} names ({t:?}, {w:?})"));
            }
            let s = similarity(&t, &w);
            if less(s, b) || less(b, s) {
                return Err(format!("tags {tags:?}: the suggestion for {query:?} is {t:?} for {w:?} with similarity {}/{}; the best is {}/{}", s.0, s.1, b.0, b.1));
            }
            cx.outcome(&(t, w));
            Ok(())
        }
    }
}

fn set_up(tags: &[String], seed: u64) -> Result<(), String> {
    sys::set_seed(seed);
    sys::must_load(&sys::image(&catalogue(tags))?)
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    // every tag with every word
    let alphabet: &'static [char] = &['a', 'å', '\u{1D11E}'];
    let names = Rc::new(strings(alphabet, 1, tier.pick(6, 7)));
    let words = Rc::new(strings(alphabet, 0, tier.pick(6, 7)));
    let (n1, n2) = (names.clone(), names.clone());
    f.push(Family::new("pairs", names.len() as u64, 20, move |i| format!("tag {:?} with every word over {alphabet:?}", n1[i as usize]), move |i, cx| {
        let tags = [n2[i as usize].clone()];
        set_up(&tags, i + 1)?;
        cx.state(&tags);
        words.iter().try_for_each(|w| ask(&tags, w, cx))
    }));
    // long tags: every set of differing positions, words shorter and longer than the tag
    let longest = tier.pick(12usize, 15);
    let r = [longest as u64 - 2, 3];
    f.push(Family::new("long", product(&r), 1, move |i| { let d = digits(i, &r); format!("tag of {} characters, words differing in every set of positions, length {:+}", d[0] + 3, d[1] as i64 - 1) }, move |i, cx| {
        let d = digits(i, &r);
        let letters: Vec<char> = "abcåøæ漢字\u{1F47D}\u{1D11E}xyzwv".chars().collect();
        let len = d[0] + 3;
        let tag: Vec<char> = letters[..len.min(letters.len())].to_vec();
        let tags = [tag.iter().collect::<String>()];
        set_up(&tags, i + 1)?;
        cx.state(&tags);
        for mask in 0..1u32 << tag.len() {
            let mut w: Vec<char> = tag.iter().enumerate().map(|(k, c)| if mask >> k & 1 == 1 { ['q', 'Å', '界'][k % 3] } else { *c }).collect();
            match d[1] {
                0 => {
                    w.pop();
                }
                1 => {}
                _ => w.push('!'),
            }
            ask(&tags, &w.iter().collect::<String>(), cx)?;
        }
        Ok(())
    }));
    // sets of up to three tags with two words
    let few: Rc<Vec<String>> = Rc::new(["abc", "abcd", "abcde", "abcdx", "abcdef", "abcdey", "åbcdef", "åbc", "漢字漢字漢字", "ab", "xbcdefghij", "abcdefghij", ""].iter().map(|s| (*s).to_string()).collect());
    let k = few.len() as u64;
    let mut ws: Vec<String> = few.to_vec();
    ws.extend(["abcdez", "abcdefghiz", "åbcdez", "漢字漢字漢x", "zzzzz", "abx", "a"].iter().map(|s| (*s).to_string()));
    let ws = Rc::new(ws);
    let r = [k, k + 1, k + 1];
    let (f1, f2) = (few.clone(), few.clone());
    let choose = move |few: &[String], i: u64| -> Vec<String> {
        let d = digits(i, &r);
        let mut t = vec![few[d[0]].clone()];
        for x in &d[1..] {
            if *x < few.len() && !t.contains(&few[*x]) {
                t.push(few[*x].clone());
            }
        }
        t
    };
    let seeds = tier.pick(2, 6);
    f.push(Family::new("sets", product(&r) * seeds, 200, move |i| format!("tags {:?} with every pair of words, seed {}", choose(&f1, i / seeds), i % seeds), move |i, cx| {
        let tags = choose(&f2, i / seeds);
        set_up(&tags, 17 + i)?;
        cx.state(&tags);
        for a in ws.iter() {
            ask(&tags, a, cx)?;
            for b in ws.iter() {
                ask(&tags, &format!("{a} {b}"), cx)?;
            }
        }
        Ok(())
    }));
    // spaces and three words
    let pieces = ["", " ", "abcdef", "abcdex", "kunst", "kunsx", "  ", "KUNST", "kunst-", "kunster"];
    let r = [10u64, 10, 10, 10];
    f.push(Family::new("spaces", product(&r), 1000, move |i| format!("tags kunst, abcdefgh; query {:?}", digits(i, &r).iter().map(|d| pieces[*d]).collect::<Vec<_>>().join(" ")), move |i, cx| {
        thread_local!(static READY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
        let tags = ["kunst".to_string(), "abcdefgh".to_string()];
        if !READY.with(std::cell::Cell::get) {
            set_up(&tags, 3)?;
            READY.with(|r| r.set(true));
        }
        let d = digits(i, &r);
        cx.state(&d);
        for sep in ["", " "] {
            ask(&tags, &d.iter().map(|k| pieces[*k]).collect::<Vec<_>>().join(sep), cx)?;
        }
        Ok(())
    }));
    // every character as part of a tag that is typed exactly (in every script)
    f.push(Family::new("scripts", 0x110000 / 512, 64, |i| format!("tags made of the characters from U+{:04X}, typed exactly", i * 512), |i, cx| {
        let tags: Vec<String> = (0..128u32).filter_map(|k| {
            let cs: Vec<char> = (0..4).filter_map(|j| char::from_u32(i as u32 * 512 + k * 4 + j)).filter(|c| *c != ' ').collect();
            if cs.len() >= 3 { Some(cs.into_iter().collect()) } else { None }
        }).collect();
        if tags.is_empty() {
            return Ok(());
        }
        set_up(&tags, i + 1)?;
        cx.state(&tags);
        for t in &tags {
            ask(&tags, t, cx)?;
        }
        Ok(())
    }));
    // texts that shops really have as tags and as words
    let odd = shapes::odd();
    f.push(Family::new("odd-texts", odd.len() as u64 + 1, 8, move |i| match odd.get(i as usize) { Some(s) => format!("the tags {s:?}, its upper case and itself with letters around it; each of the texts typed"), None => "all texts as tags".into() }, move |i, cx| {
        let i = i as usize;
        let mut tags: Vec<String> = if i < odd.len() { vec![odd[i].into(), format!("{}bcdefg", odd[i]), format!("abc{}defg", odd[i]), format!("abcdefg{}", odd[i]), odd[i].to_uppercase()] } else { odd.iter().map(|s| (*s).into()).collect() };
        tags.sort();
        tags.dedup();
        set_up(&tags, i as u64 + 1)?;
        cx.state(&tags);
        for t in odd {
            for q in [t.to_string(), format!("{t}bcdefg"), format!("abc{t}defg"), format!("abcdefg{t}"), format!("{t} {}", t.to_uppercase()), format!("{t}{t}"), format!("\u{2603}\u{2603}\u{2603} {t}")] {
                ask(&tags, &q, cx)?;
            }
        }
        Ok(())
    }));
    // long names: numbers of equal characters around four fifths and around one and two bytes
    let mut lens = vec![20usize, 100, 127, 128, 254, 255, 256, 257, 319, 320, 321, 1275, 1280, 16_384, 40_000];
    if tier.pick(false, true) {
        lens.extend([65_534, 65_535, 65_536, 65_540, 81_920]);
    }
    let r = [lens.len() as u64, 3];
    let l3 = lens.clone();
    f.push(Family::new("long-names", product(&r), 1, move |i| { let d = digits(i, &r); format!("a tag of {} characters {:?}, words with chosen numbers of differences", l3[d[0]], ["a", "é", "漢"][d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let (len, c) = (lens[d[0]], ['a', 'é', '漢'][d[1]]);
        let tags = [std::iter::repeat(c).take(len).collect::<String>()];
        set_up(&tags, i + 1)?;
        cx.state(&(len, c));
        let edge = len - len * 4 / 5;
        for wrong in [0, 1, 2, len / 10, edge.saturating_sub(2), edge - 1, edge, edge + 1, len / 2, len - 1, len] {
            for front in [true, false] {
                for more in [0usize, 1, 256, 70_000] {
                    let same = std::iter::repeat(c).take(len - wrong);
                    let other = std::iter::repeat('q').take(wrong);
                    let tail = std::iter::repeat(c).take(more);
                    let w: String = if front { other.chain(same).chain(tail).collect() } else { same.chain(other).chain(tail).collect() };
                    ask(&tags, &w, cx).map_err(shapes::cut)?;
                }
            }
        }
        Ok(())
    }));
    // several tags that all resemble the word: which is the closest
    let lens: Vec<usize> = (3..=40).chain([50, 64, 99, 100, 101, 200, 400]).collect();
    let seeds = tier.pick(4, 12);
    let r = [lens.len() as u64, 5, 5, seeds];
    let l2 = lens.clone();
    f.push(Family::new("close-tags", product(&r), 300, move |i| { let d = digits(i, &r); format!("tags of {} characters with 0, {} and {} differences, hash seed {}", l2[d[0]], d[1], d[2], d[3]) }, move |i, cx| {
        let d = digits(i, &r);
        let word: Vec<char> = "abcåø漢\u{1F47D}".chars().cycle().take(lens[d[0]]).collect();
        let wrong = |front: usize, back: usize| -> String { word.iter().enumerate().map(|(k, c)| if k < front || k + back >= word.len() { 'q' } else { *c }).collect() };
        let mut tags = vec![wrong(d[1], 0), wrong(0, d[2]), wrong(1, d[2]), wrong(d[1], 2)];
        tags.sort();
        tags.dedup();
        set_up(&tags, 1 + i)?;
        cx.state(&tags);
        for q in [wrong(0, 0), wrong(1, 0), wrong(0, 1), wrong(1, 2), format!("{} {}", wrong(0, 2), wrong(0, 0)), format!("{} {}", wrong(0, 0), wrong(2, 0)), format!("{}x", wrong(0, 0))] {
            ask(&tags, &q, cx)?;
        }
        Ok(())
    }));
    f.push(Family::new("very-many", 4, 1, |i| format!("66 000 tags, part {i}"), |i, cx| {
        let tags: Vec<String> = (0..66_000).map(|k| format!("{:05}tag{:05}", k * 7 % 66_000, k)).collect();
        set_up(&tags, i + 1)?;
        cx.state(&tags.len());
        for k in [0usize, 1, 255, 256, 32_768, 65_535, 65_536, 65_999].into_iter().skip(i as usize * 2).take(2) {
            ask(&tags, &tags[k], cx).map_err(shapes::cut)?;
            ask(&tags, &format!("qqqqq {}", tags[k]), cx).map_err(shapes::cut)?;
        }
        ask(&tags, "nothing like these", cx).map_err(shapes::cut)
    }));
    // words of a query: many, with the matching one anywhere
    f.push(Family::new("long-queries", 12, 1, |i| format!("query of {} words", [1usize, 2, 3, 10, 100, 255, 256, 257, 1000, 4096, 65_536, 66_000][i as usize]), |i, cx| {
        let n = [1usize, 2, 3, 10, 100, 255, 256, 257, 1000, 4096, 65_536, 66_000][i as usize];
        let tags = ["kunsten".to_string(), "abcdefgh".to_string()];
        set_up(&tags, i + 1)?;
        for at in [0, n / 2, n - 1, n] {
            for (word, second) in [("kunsten", ""), ("kunstex", ""), ("kunstxx", ""), ("kunstex", "kunsten"), ("kunsten", "abcdefgx")] {
                let mut q: Vec<String> = (0..n).map(|k| format!("w{k}")).collect();
                if at < n {
                    q[at] = word.into();
                    if !second.is_empty() {
                        q.insert(n - at, second.into());
                    }
                }
                cx.state(&(n, at, word, second));
                ask(&tags, &q.join(" "), cx).map_err(shapes::cut)?;
            }
        }
        Ok(())
    }));
    // many tags
    let counts = [127usize, 128, 129, 200, 256, 257, 300];
    f.push(Family::new("many", counts.len() as u64, 1, move |i| format!("{} tags, each typed exactly and with one error", counts[i as usize]), move |i, cx| {
        let tags: Vec<String> = (0..counts[i as usize]).map(|k| format!("tag{k:04}-{:02}", (k * 37) % 97)).collect();
        set_up(&tags, i + 1)?;
        cx.state(&tags.len());
        for t in &tags {
            ask(&tags, t, cx)?;
            ask(&tags, &format!("x{}", &t[1..]), cx)?;
            ask(&tags, &format!("foo {t} bar"), cx)?;
        }
        Ok(())
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C13",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["words are separated by single U+0020 spaces as in the query; a tag containing a space is compared as a whole with single words"],
        bounds: |t| vec![
            t.pick("all pairs of tag (1..6 characters) and word (0..6) over one-, two- and four-byte characters", "all pairs of tag (1..7 characters) and word (0..7) over one-, two- and four-byte characters").into(),
            t.pick("tags of 3..12 characters with every set of differing positions", "tags of 3..15 characters with every set of differing positions").into(),
            "all sets of up to three of 13 tags with all single and pairs of 20 words; all four-piece queries over 10 pieces with two separators; every Unicode character; sets of up to four tags of 3..400 characters with 0..6 differences each; texts as shops have them, alone and within a name, as tags and as words; up to 300 tags; names of 20 to 40 000 characters (thorough: 81 920) with numbers of differences around a fifth; 66 000 tags; queries of up to 66 000 words".into(),
        ],
    })
}
