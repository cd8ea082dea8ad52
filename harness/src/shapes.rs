//! Shared catalogue generators.
use crate::model::{token, P};

pub const SIZES: &[usize] = &[2, 3, 4, 5, 6, 7, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 150, 200, 255, 256, 257, 258, 300];

/// A structured catalogue of n products exercising every index.
pub fn structured(n: usize) -> Vec<P> {
    (0..n)
        .map(|i| {
            let mut p = P::new(&format!("gid://shopify/Product/{}", 1000 + i * 7))
                .desc(&format!("{} red {}", token(i), if i % 3 == 0 { "circle" } else { "square" }))
                .title(&format!("Titel {:03} Ærø", (i * 37) % 101))
                .vendor(&format!("Vendor {}", i % 5))
                .price(&format!("{}.{:02}", (i * 53) % 40, (i * 25) % 100));
            if i % 2 == 0 {
                p = p.tag("even");
            }
            if i % 3 == 0 {
                p = p.tag("third").tag("Blå tag");
            }
            if i % 10 != 9 {
                p = p.tag("common");
            }
            if i % 4 != 1 {
                p = p.opt("Size", if i % 2 == 0 { &["S", "M"] } else { &["M"] });
            }
            if i % 5 != 2 {
                p = p.opt("Color", if i % 3 == 0 { &["Red"] } else { &["M", "Blue"] });
            }
            if i % 7 == 3 {
                p = p.opt("Size", &["XL", "S"]);
            }
            if i % 3 != 1 {
                p = p.media(&format!("https://cdn/{i}/a.jpg"));
                if i % 2 == 0 {
                    p = p.media(&format!("https://cdn/{i}/b.jpg"));
                }
            }
            p
        })
        .collect()
}

/// Texts with characters of every encoded length.
pub fn text_menu() -> Vec<String> {
    let long_words: String = (0..30).map(|i| format!("ord{i:02} ")).collect();
    vec![
        String::new(),
        "a".into(),
        "abcabc".into(),
        "Ærø blå \u{1F47D} grød".into(),
        "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}".into(),
        "  leading and trailing  ".into(),
        "x".repeat(127),
        "x".repeat(128),
        "é".repeat(100),
        "\u{1F47D}".repeat(70),
        long_words,
        "line\nbreak\ttab \"quoted\" \\ back".into(),
    ]
}

/// n products for very large catalogues: a word of five characters of its own each, one of two
/// common words (the first in three quarters of them), titles and prices in other orders than the catalogue's.
pub fn many(n: usize) -> Vec<P> {
    (0..n)
        .map(|i| {
            let code: String = std::iter::once('\u{4E00}').chain((0..4).map(|k| char::from_u32(0x4E01 + (i / 41usize.pow(3 - k) % 41) as u32).unwrap_or('?'))).collect();
            let mut p = P::new(&format!("id/{i}"))
                .desc(&format!("{code}{}", if i % 4 != 3 { "rundt" } else { "kantet" }))
                .title(&format!("{:05}", (i * 7919) % 99_991))
                .price(&format!("{}.{:02}", (i * 31) % 997, i % 100));
            if i % 3 == 0 {
                p = p.tag("third");
            }
            if i + 1 == n || i == 0 {
                p = p.tag("ends");
            }
            if i % 5 != 0 {
                p = p.opt("Size", &[["S", "M", "L"][i % 3]]);
            }
            if i % 7 == 0 {
                p = p.media(&format!("u{i}"));
            }
            p
        })
        .collect()
}

pub const WIDE: [&str; 8] = ["66 000 tags", "66 560 options in 260 categories", "17 000 options in one category", "17 000 categories", "texts of 16 384 and 70 000 bytes", "70 000 images", "70 000 different characters", "70 000 different characters after the same one"];

/// Three products with very many or very long values.
pub fn wide(kind: usize) -> Vec<P> {
    let mut ps: Vec<P> = (0..3).map(|i| P::new(&format!("w{i}")).desc(&token(i)).title(&format!("t{i}")).vendor("v")).collect();
    let who = |j: usize| if j % 1000 == 0 { 0..3 } else { j % 3..j % 3 + 1 };
    match kind {
        0 => (0..66_000).for_each(|j| who(j).for_each(|i| ps[i].tags.push(format!("tag {j}")))),
        1 => (0..260usize).for_each(|c| {
            for i in 0..3 {
                let v: Vec<String> = (0..256usize).filter(|o| who(c * 256 + o).contains(&i)).map(|o| format!("v{o}")).collect();
                ps[i].options.push((format!("c{c}"), v));
            }
        }),
        2 => (0..3).for_each(|i| {
            let v = (0..17_000usize).filter(|j| who(*j).contains(&i)).map(|j| format!("v{j}")).collect();
            ps[i].options.push(("c".into(), v));
        }),
        3 => (0..17_000).for_each(|j| who(j).for_each(|i| ps[i].options.push((format!("c{j}"), vec!["v".into(), format!("w{}", j % 3)])))),
        4 => (0..3).for_each(|i| {
            let long = ["x".repeat(16_384), "é".repeat(35_000), "word ".repeat(14_000)][i].clone();
            let p = &mut ps[i];
            p.desc.push_str(&long);
            p.title = format!("{i}{long}");
            p.vendor = format!("{long}{i}");
            p.id.push_str(&long);
            p.tags.push(long.clone());
            p.options.push((long.clone(), vec![long.clone()]));
            p.media.push(long);
        }),
        6 => ps[0].desc = alphabet(70_000).into_iter().collect(),
        7 => ps[0].desc = alphabet(70_000).into_iter().flat_map(|c| ['q', c]).collect(),
        _ => (0..3).for_each(|i| ps[i].media = (0..70_000).map(|j| format!("u{i} {j}")).collect()),
    }
    ps
}

/// A report of bearable length.
pub fn cut(mut e: String) -> String {
    let mut k = 1000.min(e.len());
    while !e.is_char_boundary(k) {
        k -= 1;
    }
    e.truncate(k);
    e
}

/// n different characters without case, other than those of `token` for small positions.
pub fn alphabet(n: usize) -> Vec<char> {
    ('\u{5000}'..='\u{9FFF}').chain('\u{AC00}'..='\u{D7A3}').chain('\u{20000}'..='\u{2A6DF}').take(n).collect()
}

/// Texts that shops really have or that mean something to some program.
pub fn odd() -> &'static [&'static str] {
    &[
        "", " ", "  ", "-", "_", ".", ",", ";", ":", "|", "/", "\\", "#", "*", "%", "&", "+", "=", "?", "!", "'", "\"", "`", "a,b", "a, b", "a;b", "a|b", "a/b", "a:b", "a-b", "a_b", "a b", "a  b", " a b", "a b ", "a\tb", "a\nb", "a\r\nb", "a\u{a0}b", "\u{a0}", "\u{a0}a", "a\u{a0}", "a\n", "\ta", "a\u{200b}b", "a\u{ad}b",
        "\u{feff}a", "#a", "@a", "Size: XL", "Size", "size", "SIZE", "size ", "sizes", "Title", "Default Title", "Default", "default", "Other", "None", "none", "N/A", "n/a", "All", "all", "sale", "hidden", "null", "undefined", "true", "false", "NaN", "Infinity", "0", "00", "0.0", "1",
        "1.0", "01", "-1", "1e3", "9007199254740993", "title", "price", "image_url", "id", "tags", "Alphabetical", "Price low to high", "__proto__", "constructor", "toString", "gid://shopify/Product/1", "https://cdn.shop/a.jpg?v=1&width=200#x", "https://cdn.shop/a.jpg", "//cdn.shop/a.jpg", "$100", "100%", "20 %",
        "%20", "%00", "&amp;", "&", "<b>x</b>", "<p>", "<script>", "{{x}}", "${x}", "{}", "[]", "\\n", "\\u0041", "\\", "\"x\"", "'x'", "é", "e\u{301}", "É", "ﬁ", "fi", "ß", "ss", "SS", "ẞ", "ı", "i", "I", "İ", "Æ", "ø", "Å", "A\u{30a}", "Ω", "Σίσυφος", "ΟΔΟΣ ΣΑΣ", "Привет", "שלום", "مرحبا", "漢字", "ｆｕｌｌ",
        "①", "\u{1F469}\u{200D}\u{1F467}", "\u{1F44D}\u{1F3FD}", "\u{1F1E9}\u{1F1F0}", "\u{202E}abc", "\u{1}", "\u{7f}", "\u{85}", "\u{2028}", "\u{fffd}", "\u{ffff}", "\u{10ffff}",
    ]
}

/// A catalogue of four products with two texts in every field, alone, together and next to each other.
pub fn odd_catalogue(s: &str, t: &str) -> Vec<P> {
    let mut ps = vec![
        P::new(s).desc(&format!("{s}{}", token(0))).title(s).vendor(t).tag(s).opt(s, &[t]).media(s).price("2"),
        P::new(&format!("{t}'")).desc(&format!("{} {t} {s}", token(1))).title(&format!("{t}{s}")).vendor(s).tag(t).tag(s).opt(t, &[s, t]).media(t).media(s).price("0.5"),
        P::new(&format!("2{s}{t}")).desc(&format!("{t}{}{t}", token(2))).title(t).vendor(&format!("{s}{t}")).tag(&format!("{s}{t}")).opt(s, &[s, &format!("{s} {t}")]).opt(t, &[t]).media(&format!("{s}{t}")).price("2"),
        P::new("plain").desc(&token(3)).title("x").price("1"),
    ];
    if ps[0].id == ps[1].id || ps[0].id == ps[2].id || ps[0].id == "plain" {
        ps[0].id.push_str("''");
    }
    ps
}

/// Texts, as (block, times, end), which together contain one character more than 2^24 times.
pub fn frequent_texts(kind: usize) -> Vec<(&'static str, u64, &'static str)> {
    let (block, times, end, rest): (_, u64, _, &[_]) = match kind {
        0 => ("a", 16_777_300, "bcdef", &[("aabcdefg", 1, ""), ("aaxyz", 2, "q"), ("zz", 2, "abcd")]),
        1 => ("ab", 16_777_300, "cdefg", &[("abacde", 1, "f"), ("bbxyz", 1, "q"), ("zz", 2, "bbcd")]),
        _ => ("a", 17_000_000, "bb", &[("ba", 800_000, "aac"), ("aabbc", 1, "dd"), ("c", 5, "abbaxyz")]),
    };
    // in many products: the indexer compares their contents for every posting
    const EACH: u64 = 1000;
    let mut out = rest.to_vec();
    let mut left = times;
    while left > EACH {
        out.push((block, EACH, ""));
        left -= EACH;
    }
    out.push((block, left, end));
    out.into_iter().flat_map(|(b, mut t, e)| {
        let mut parts = Vec::new();
        while t > EACH {
            parts.push((b, EACH, ""));
            t -= EACH;
        }
        parts.push((b, t, e));
        parts
    }).collect()
}

pub fn frequent(kind: usize) -> Vec<P> {
    frequent_texts(kind).iter().enumerate().map(|(i, (block, times, end))| P::new(&format!("id{i}")).desc(&format!("{}{end}", block.repeat(*times as usize)))).collect()
}

/// Prices of a product as shops have them: lowest and its currency, highest and its currency.
pub const MONEY: [[&str; 4]; 32] = [
    ["12.75", "DKK", "999999", "DKK"], ["12.75", "EUR", "999999", "EUR"], ["12.75", "JPY", "999999", "JPY"], ["12.755", "KWD", "12.755", "KWD"], ["12.7555", "CLF", "12.8", "CLF"],
    ["12.75", "", "12.75", ""], ["12.75", "kr", "12.75", "kr"], ["12.75", "dkk", "12.75", "dkk"], ["12.75", "DKK", "12.75", "EUR"], ["12.75", "JPY", "12.75", "DKK"],
    ["12.75", "KRW", "12", "KRW"], ["12.75", "ISK", "", ""], ["12.75", "BTC", "on request", "?"], ["12.75", "\u{20AC}", "12.75", "\u{20AC}"], ["12.75", "XXX", "-1", "XXX"],
    ["12.75", "USD", "12.76", "USD"], ["12.75", "VND", "0", "VND"], ["13", "JPY", "14", "JPY"], ["12", "JPY", "13", "JPY"], ["12.5", "JPY", "13.5", "JPY"],
    ["13", "DKK", "13", "DKK"], ["12.76", "SEK", "12.75", "SEK"], ["12.749", "MGA", "13", "MGA"], ["1275", "HUF", "1275", "HUF"], ["-12.75", "JPY", "12.75", "JPY"],
    ["0", "JPY", "0", "JPY"], ["0.01", "DKK", "1e39", "DKK"], ["0.4", "JPY", "NaN", "JPY"], ["0.001", "BHD", "1", "BHD"], ["12.75", "DKK", "12.7", "DKK"],
    ["-12.75", "DKK", "12.75", "EUR"], ["-0.01", "", "-0.02", "GBP"],
];

/// A catalogue, and the same with one detail changed.
pub fn details() -> Vec<(&'static str, Vec<P>)> {
    let base = || -> Vec<P> {
        (0..4)
            .map(|i| {
                let p = P::new(&format!("id{i}")).desc(&format!("{} alpha {}", token(i), ["beta", "beta", "gamma", "gamma"][i])).title(["tit3", "tit1", "tit2", "tit4"][i]);
                let p = p.vendor(["vendor one", "vendor two"][i % 2]).price(["1.5", "2.5", "3.5", "4.5"][i]).media(&format!("http://{i}")).tag(["first", "other"][i % 2]);
                p.opt("Size", &[["XL", "XS"][i / 2]]).opt("Color", &["Red"])
            })
            .collect()
    };
    let with = |f: &dyn Fn(&mut Vec<P>)| {
        let mut ps = base();
        f(&mut ps);
        ps
    };
    let long = |end: &'static str| with(&|p| p[2].desc.push_str(&format!(" {} {end}", "filler words ".repeat(10))));
    vec![
        ("unchanged", base()),
        ("with another title", with(&|p| p[1].title = "tip1".into())),
        ("with a title in capitals", with(&|p| p[1].title = "TIT1".into())),
        ("with two titles exchanged", with(&|p| { p[0].title = "tit1".into(); p[1].title = "tit3".into(); })),
        ("with a title that sorts elsewhere", with(&|p| p[1].title = "tit9".into())),
        ("with another vendor", with(&|p| p[3].vendor = "vendor six".into())),
        ("with the vendors exchanged", with(&|p| p.iter_mut().enumerate().for_each(|(i, p)| p.vendor = ["vendor two", "vendor one"][i % 2].into()))),
        ("with another id", with(&|p| p[0].id = "ID0".into())),
        ("with the ids exchanged", with(&|p| { p[0].id = "id2".into(); p[2].id = "id0".into(); })),
        ("with another price of the same rank", with(&|p| p[2].price = "3.25".into())),
        ("with two prices exchanged", with(&|p| { p[2].price = "2.5".into(); p[1].price = "3.5".into(); })),
        ("with another image", with(&|p| p[1].media = vec!["http://7".into()])),
        ("with two images exchanged", with(&|p| { p[0].media = vec!["http://3".into()]; p[3].media = vec!["http://0".into()]; })),
        ("without an image", with(&|p| p[1].media.clear())),
        ("with another tag", with(&|p| p[1].tags = vec!["otter".into()])),
        ("with two tags exchanged", with(&|p| { p[0].tags = vec!["other".into()]; p[1].tags = vec!["first".into()]; })),
        ("with a tag renamed everywhere", with(&|p| p.iter_mut().step_by(2).for_each(|p| p.tags = vec!["fiRst".into()]))),
        ("without tags", with(&|p| p.iter_mut().for_each(|p| p.tags.clear()))),
        ("with another option", with(&|p| p[0].options[0].1 = vec!["XM".into()])),
        ("with the options exchanged", with(&|p| p.iter_mut().enumerate().for_each(|(i, p)| p.options[0].1 = vec![["XS", "XL"][i / 2].into()]))),
        ("with a category renamed", with(&|p| p.iter_mut().for_each(|p| p.options[1].0 = "Couleur".into()))),
        ("with a category of the same length renamed", with(&|p| p.iter_mut().for_each(|p| p.options[1].0 = "Kolor".into()))),
        ("without categories", with(&|p| p.iter_mut().for_each(|p| p.options.clear()))),
        ("with the categories in another order", with(&|p| p.iter_mut().for_each(|p| p.options.reverse()))),
        ("with another description", with(&|p| p[0].desc.push('x'))),
        ("with two letters of a description exchanged", with(&|p| p[3].desc = p[3].desc.replace("alpha", "alpah"))),
        ("with a long description", long("ending one")),
        ("with another long description", long("ending two")),
        ("with one product less", with(&|p| { p.pop(); })),
        ("with two products exchanged", with(&|p| p.swap(0, 1))),
    ]
}
