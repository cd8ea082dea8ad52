#[path = "../parts/content.rs"]
mod content;

use std::rc::Rc;

use content::*;
use indexer_lib as ix;
use vharness::engine::*;
use vharness::model::*;
use vharness::{shapes, sys};

/// A JSON document under construction; strings carry their spelling.
#[derive(Clone, Debug)]
enum J {
    S(String),
    /// raw text
    Raw(String),
    A(Vec<J>),
    O(Vec<(J, J)>),
}
fn plain(s: &str) -> J {
    J::Raw(serde_json::Value::from(s).to_string())
}
fn write(j: &J, out: &mut String) {
    match j {
        J::S(s) => out.push_str(&serde_json::Value::from(s.as_str()).to_string()),
        J::Raw(s) => out.push_str(s),
        J::A(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(x, out);
            }
            out.push(']');
        }
        J::O(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(k, out);
                out.push(':');
                write(x, out);
            }
            out.push('}');
        }
    }
}
fn text(j: &J) -> String {
    let mut s = String::new();
    write(j, &mut s);
    s
}

const FIELDS: [&str; 11] = ["description", "title", "vendor", "id", "tag", "option name", "option value", "media url", "amount", "currency", "map key"];

/// One product; `spell` gives the JSON spelling of the string at a field.
fn product_doc(p: &P, spell: &dyn Fn(usize, &str) -> J) -> J {
    let k = |s: &str| J::S(s.into());
    J::O(vec![
        (k("description"), spell(0, &p.desc)),
        (k("title"), spell(1, &p.title)),
        (k("vendor"), spell(2, &p.vendor)),
        (k("id"), spell(3, &p.id)),
        (k("tags"), J::A(p.tags.iter().map(|t| spell(4, t)).collect())),
        (k("options"), J::A(p.options.iter().map(|(n, v)| J::O(vec![(k("name"), spell(5, n)), (k("values"), J::A(v.iter().map(|v| spell(6, v)).collect()))])).collect())),
        (k("price"), J::O(vec![(k("min"), J::O(vec![(k("amount"), spell(8, &p.price)), (k("currencyCode"), spell(9, "DKK"))])), (k("max"), J::O(vec![(k("amount"), spell(8, "999999")), (k("currencyCode"), spell(9, "DKK"))]))])),
        (k("media"), J::A(p.media.iter().map(|u| J::O(vec![(k("url"), spell(7, u))])).collect())),
    ])
}
fn doc(ps: &[P], spell: &dyn Fn(usize, &str) -> J) -> J {
    J::O(ps.iter().map(|p| (spell(10, &p.id), product_doc(p, spell))).collect())
}

fn base() -> Vec<P> {
    vec![
        P::new("gid/1").desc("abcdefg hij").title("Titel").vendor("maker").tag("t").tag("u").opt("Size", &["S", "M"]).opt("Color", &["S"]).price("12.5").media("http://x/1").media("http://x/2"),
        P::new("gid/2").desc("klmno").title("Other").vendor("maker").tag("u").opt("Size", &["M"]).price("3").media("y"),
        P::new("gid/3").desc("").title("pqrstuv").vendor("w").price("0.75"),
    ]
}

fn index(doc: &str) -> Result<Option<Vec<u8>>, String> {
    guarded(|| ix::index(doc))
}

fn same(doc: &str, ps: &[P], cx: &mut Cx) -> Result<(), String> {
    let bytes = index(doc)?.ok_or("the document is refused")?;
    let got = content(&bytes)?;
    let want = expected(ps);
    cx.step(1);
    cx.trace();
    cx.outcome(&got);
    if got != want {
        return Err(diff(&got, &want));
    }
    Ok(())
}
fn refused(doc: &str, cx: &mut Cx) -> Result<(), String> {
    cx.step(1);
    cx.trace();
    match index(doc)? {
        None => Ok(()),
        Some(_) => Err("the document is accepted".into()),
    }
}

const CHARS: &[char] = &['a', '"', '\\', '/', '\n', '\t', '\r', '\u{8}', '\u{c}', '\u{1}', '\u{1f}', '\u{7f}', 'é', 'ß', 'Å', '漢', '\u{2028}', '\u{FEFF}', '\u{D7FF}', '\u{E000}', '\u{FFFF}', '\u{10000}', '\u{1D11E}', '\u{10FFFF}', ' ', 'u', 'n'];
/// Spelling of one character; None if there is no such spelling.
fn spelling(c: char, how: usize) -> Option<String> {
    let units: Vec<u16> = c.encode_utf16(&mut [0; 2]).to_vec();
    match how {
        0 => if c < ' ' || c == '"' || c == '\\' { None } else { Some(c.to_string()) },
        1 => Some(match c { '"' => "\\\"", '\\' => "\\\\", '/' => "\\/", '\n' => "\\n", '\t' => "\\t", '\r' => "\\r", '\u{8}' => "\\b", '\u{c}' => "\\f", _ => return None }.to_string()),
        2 => Some(units.iter().map(|u| format!("\\u{u:04x}")).collect()),
        _ => Some(units.iter().map(|u| format!("\\u{u:04X}")).collect()),
    }
}
const HOWS: usize = 4;
fn around(at: usize, c: char) -> (String, usize) {
    // (text, index of the special character)
    match at {
        0 => (format!("{c}bcdef"), 0),
        1 => (format!("bcd{c}ef"), 3),
        2 => (format!("bcdef{c}"), 5),
        3 => (format!("{c}"), 0),
        _ => (format!("b{c}{c}d{c}"), 1),
    }
}
/// Escapes exactly the occurrences of `c` in `s`.
fn spelled(s: &str, c: char, how: usize) -> Option<J> {
    let mut out = String::from("\"");
    for x in s.chars() {
        if x == c {
            out.push_str(&spelling(c, how)?);
        } else {
            out.push_str(&spelling(x, 0).or_else(|| spelling(x, 2))?);
        }
    }
    out.push('"');
    Some(J::Raw(out))
}
/// The catalogue in which `field` of the first product carries `s`.
fn with_field(field: usize, s: &str) -> Vec<P> {
    let mut ps = base();
    let p = &mut ps[0];
    match field {
        0 => p.desc = s.into(),
        1 => p.title = s.into(),
        2 => p.vendor = s.into(),
        3 => p.id = s.into(),
        4 => p.tags[0] = s.into(),
        5 => p.options[0].0 = s.into(),
        6 => p.options[0].1[1] = s.into(),
        7 => p.media[0] = s.into(),
        _ => {}
    }
    ps
}

fn permutation(mut i: u64, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    for k in (1..=n).rev() {
        let f: u64 = (1..k as u64).product();
        out.push(left.remove((i / f) as usize % k));
        i %= f;
    }
    out
}

/// Calls `f` on every object of the document (by preorder number).
fn objects(j: &mut J, f: &mut dyn FnMut(usize, &mut Vec<(J, J)>), n: &mut usize) {
    match j {
        J::O(v) => {
            let me = *n;
            *n += 1;
            for (_, x) in v.iter_mut() {
                objects(x, f, n);
            }
            f(me, v);
        }
        J::A(v) => v.iter_mut().for_each(|x| objects(x, f, n)),
        _ => {}
    }
}
fn spell_plain(_: usize, s: &str) -> J {
    plain(s)
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    // every field x character x place x spelling
    let r = [FIELDS.len() as u64, CHARS.len() as u64, 5, HOWS as u64];
    f.push(Family::new("escapes", product(&r), 400, move |i| { let d = digits(i, &r); format!("{} with {:?} at place {} spelled {:?}", FIELDS[d[0]], CHARS[d[1]], d[2], spelling(CHARS[d[1]], d[3])) }, move |i, cx| {
        let d = digits(i, &r);
        let c = CHARS[d[1]];
        if spelling(c, d[3]).is_none() {
            return Ok(());
        }
        let (s, _) = around(d[2], c);
        cx.state(&(d[0], &s, d[3]));
        let ps = with_field(d[0], &s);
        let target = d[0];
        let first = std::cell::Cell::new(true);
        // the amount and the currency are spelled as a whole
        let j = doc(&ps, &|field, v| {
            if field == target && target == 8 {
                return J::Raw(format!("\"{}\"", v.chars().map(|c| spelling(c, if first.get() { d[3].max(2) } else { 0 }).unwrap_or_default()).collect::<String>()));
            }
            if field == target && target == 9 {
                return spelled(&s, c, d[3]).unwrap_or_else(|| plain(v));
            }
            if field == target && target == 10 {
                return spelled(&format!("{s}{v}"), c, d[3]).unwrap_or_else(|| plain(v));
            }
            if field == target && v == s {
                return spelled(v, c, d[3]).unwrap_or_else(|| plain(v));
            }
            plain(v)
        });
        same(&text(&j), &ps, cx)
    }));
    // two fields at once, every character of them spelled in every way
    let r = [11u64, 11, 3, 3];
    f.push(Family::new("escape-pairs", product(&r), 120, move |i| { let d = digits(i, &r); format!("{} and {} wholly escaped in ways {} and {}", FIELDS[d[0]], FIELDS[d[1]], d[2], d[3]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = base();
        cx.state(&d);
        let j = doc(&ps, &|field, v| {
            let how = if field == d[0] { d[2] } else if field == d[1] { d[3] } else { return plain(v) };
            J::Raw(format!("\"{}\"", v.chars().map(|c| spelling(c, [0, 2, 3][how]).unwrap_or_default()).collect::<String>()))
        });
        same(&text(&j), &ps, cx)
    }));
    // every order of the members of a product
    let total = 40320;
    f.push(Family::new("member-orders", total, 2600, |i| format!("members in the order {:?}", permutation(i, 8)), |i, cx| {
        let ps = base();
        let perm = permutation(i, 8);
        cx.state(&perm);
        let mut j = doc(&ps, &spell_plain);
        objects(&mut j, &mut |_, v| {
            if v.len() == 8 {
                *v = perm.iter().map(|k| v[*k].clone()).collect();
            } else if i % 2 == 1 && v.len() == 2 {
                v.reverse();
            }
        }, &mut 0);
        same(&text(&j), &ps, cx)
    }));
    // white space in every gap
    let compact = text(&doc(&base(), &spell_plain));
    let mut gaps = vec![0];
    let (mut inside, mut esc) = (false, false);
    for (o, c) in compact.char_indices() {
        if inside {
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { inside = false }
        } else if c == '"' {
            inside = true;
        }
        if !inside {
            gaps.push(o + c.len_utf8());
        }
    }
    let spaces = [" ", "\n", "\t", "\r", " \r\n\t  "];
    let r = [gaps.len() as u64, 5];
    let (c1, g1) = (Rc::new(compact), Rc::new(gaps));
    let (c2, g2) = (c1.clone(), g1.clone());
    f.push(Family::new("white-space", product(&r), 400, move |i| { let d = digits(i, &r); format!("{:?} at byte {}", spaces[d[1]], g1[d[0]]) }, move |i, cx| {
        let d = digits(i, &r);
        let mut s = c2.to_string();
        s.insert_str(g2[d[0]], spaces[d[1]]);
        cx.state(&s);
        same(&s, &base(), cx)
    }));
    // additional members everywhere
    let mut count = 0;
    let mut max = 0;
    objects(&mut doc(&base(), &spell_plain), &mut |_, v| max = max.max(v.len()), &mut count);
    let extra = ["null", "1e400", "-0.5", "\"x\\u0041\\n\"", "true", "[1,[2,{\"id\":\"no\"}]]", "{\"id\":\"other\",\"title\":[]}", "\"\""];
    let names = ["zzz", "Id", "image_url", "", "\\u0061bc", "ti tle"];
    let r = [count as u64, max as u64 + 1, extra.len() as u64, names.len() as u64];
    f.push(Family::new("extra-members", product(&r), 800, move |i| { let d = digits(i, &r); format!("object {}: member {:?}: {} at {}", d[0], names[d[3]], extra[d[2]], d[1]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = base();
        let mut j = doc(&ps, &spell_plain);
        let mut top = 0;
        objects(&mut j, &mut |k, v| {
            // members of the outermost object are products
            if k == d[0] && k != 0 && d[1] <= v.len() {
                v.insert(d[1], (J::Raw(format!("\"{}\"", names[d[3]])), J::Raw(extra[d[2]].into())));
                top += 1;
            }
        }, &mut 0);
        if top == 0 || extra[d[2]] == "1e400" {
            return Ok(());
        }
        cx.state(&d);
        same(&text(&j), &ps, cx)
    }));
    // a missing member, or one of another kind
    let kinds = ["", "null", "7", "true", "{}"];
    let r = [count as u64, max as u64, kinds.len() as u64];
    f.push(Family::new("missing-members", product(&r), 100, move |i| { let d = digits(i, &r); format!("object {}: member {} {}", d[0], d[1], if d[2] == 0 { "missing".to_string() } else { format!("is {}", kinds[d[2]]) }) }, move |i, cx| {
        let d = digits(i, &r);
        let mut j = doc(&base(), &spell_plain);
        let mut hit = false;
        objects(&mut j, &mut |k, v| {
            if k == d[0] && d[1] < v.len() && (k != 0 || d[2] != 0) {
                hit = true;
                if d[2] == 0 {
                    v.remove(d[1]);
                } else {
                    v[d[1]].1 = J::Raw(kinds[d[2]].into());
                }
            }
        }, &mut 0);
        if !hit {
            return Ok(());
        }
        cx.state(&d);
        refused(&text(&j), cx)
    }));
    // every truncation; every single character replaced or removed
    let docs: Vec<String> = vec![text(&doc(&base(), &spell_plain)), text(&doc(&base()[1..], &|_, v| J::Raw(format!("\"{}\"", v.chars().map(|c| spelling(c, 2).unwrap_or_default()).collect::<String>()))))];
    let mut cuts = Vec::new();
    for (k, d) in docs.iter().enumerate() {
        cuts.extend((0..d.len()).filter(|o| d.is_char_boundary(*o)).map(|o| (k, o)));
    }
    let (docs, cuts) = (Rc::new(docs), Rc::new(cuts));
    let (d2, c2) = (docs.clone(), cuts.clone());
    f.push(Family::new("truncations", cuts.len() as u64, 200, { let c = cuts.clone(); move |i| format!("document {} cut after {} bytes", c[i as usize].0, c[i as usize].1) }, move |i, cx| {
        let (k, o) = c2[i as usize];
        cx.state(&(k, o));
        refused(&d2[k][..o], cx)
    }));
    let with: &'static [&'static str] = tier.pick(&["", "\"", "\\", "{", "}", "]", ",", "x", "\u{1}"], &["", "\"", "\\", "{", "}", "[", "]", ",", ":", "x", "\u{1}", "\n", "0", "-", "é", "\\u", "\\ud800", "\"\"", "null", "tru"]);
    let r = [cuts.len() as u64, with.len() as u64];
    let (d1, c1) = (docs.clone(), cuts.clone());
    f.push(Family::new("damage", product(&r), 1500, move |i| { let d = digits(i, &r); format!("document {}: byte {} replaced by {:?}", cuts[d[0]].0, cuts[d[0]].1, with[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let (k, o) = c1[d[0]];
        let c = d1[k][o..].chars().next().map_or(0, char::len_utf8);
        let s = format!("{}{}{}", &d1[k][..o], with[d[1]], &d1[k][o + c..]);
        cx.state(&s);
        match serde_json::from_str::<serde_json::Value>(&s) {
            Err(_) => refused(&s, cx),
            Ok(v) => {
                // still JSON: it may be accepted, but an amount that is no number is out of scope
                let number = |a: &serde_json::Value| a.as_str().map_or(true, |a| a.parse::<f32>().is_ok());
                if v.as_object().map_or(true, |o| o.values().all(|p| number(&p["price"]["min"]["amount"]) && number(&p["price"]["max"]["amount"]))) {
                    index(&s)?;
                    cx.step(1);
                    cx.trace();
                }
                Ok(())
            }
        }
    }));
    // every pattern of equal and different fields of two products beside a third
    let r = [64u64, 64, 2];
    let make = Rc::new(move |i: u64| {
        let d = digits(i, &r);
        let one = |j: usize, k: usize| {
            let v = |b: usize| k >> b & 1;
            let mut p = P::new(&format!("gid/{}", [7, 3, 5][j])).desc(["abcdef", "abcdefg"][v(0)]).title(["Titel", "titel"][v(1)]).vendor(["", "abcdef"][v(2)]).price(["1.0", "2"][v(3)]);
            if v(4) == 1 {
                p = p.tag("t").opt("Size", &["S"]);
            }
            if v(5) == 1 {
                p = p.media("m");
            }
            p
        };
        let mut ps = vec![one(0, d[0]), one(1, d[1])];
        if d[2] == 1 {
            ps.push(one(2, d[0] ^ 1));
        }
        ps
    });
    let m2 = make.clone();
    f.push(Family::new("equal-fields", product(&r), 600, move |i| brief(&m2(i)), move |i, cx| {
        let ps = make(i);
        cx.state(&ps);
        same(&text(&doc(&ps, &spell_plain)), &ps, cx)
    }));
    // texts that shops really have, every pair of them in every field
    let k = shapes::odd().len() as u64;
    let r = [k, k];
    f.push(Family::new("odd-texts", product(&r), 800, move |i| { let d = digits(i, &r); format!("texts {:?} and {:?} in every field", shapes::odd()[d[0]], shapes::odd()[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        let ps = shapes::odd_catalogue(shapes::odd()[d[0]], shapes::odd()[d[1]]);
        sys::set_seed(i + 1);
        let esc = |_: usize, v: &str| J::Raw(format!("\"{}\"", v.chars().map(|c| spelling(c, 2).unwrap_or_default()).collect::<String>()));
        cx.state(&d);
        same(&text(&doc(&ps, if i % 2 == 0 { &spell_plain } else { &esc })), &ps, cx)
    }));
    // other documents
    let others: Vec<(String, Option<Vec<P>>)> = vec![
        ("".into(), None), ("{}".into(), Some(vec![])), (" { } ".into(), Some(vec![])), ("[]".into(), Some(vec![])), ("null".into(), None), ("1".into(), None), ("{} {}".into(), None), ("{},".into(), None), ("\u{FEFF}{}".into(), None), ("{\"a\":1}".into(), None), ("\"x\"".into(), None),
    ];
    let others = Rc::new(others);
    let o2 = others.clone();
    f.push(Family::new("other-documents", others.len() as u64, 20, move |i| format!("{:?}", o2[i as usize].0), move |i, cx| {
        let (s, want) = &others[i as usize];
        cx.state(s);
        match want {
            // an empty list denotes no map; it may be refused or hold nothing
            Some(ps) if s == "[]" => match index(s)? {
                None => Ok(()),
                Some(b) => if content(&b)? == expected(ps) { Ok(()) } else { Err("an empty list is indexed to something".into()) },
            },
            Some(ps) => same(s, ps, cx),
            None => refused(s, cx),
        }
    }));
    // catalogues as a whole, through the exported function and through the command line
    let sizes: Vec<usize> = tier.pick(vec![2, 3, 10, 60, 129, 258, 300], (2..60).chain([127, 128, 129, 200, 256, 257, 258, 300, 600]).collect());
    let s2 = sizes.clone();
    f.push(Family::new("structured", sizes.len() as u64, 1, move |i| format!("structured catalogue of {}", s2[i as usize]), move |i, cx| {
        let ps = shapes::structured(sizes[i as usize]);
        cx.state(&ps.len());
        same(&text(&doc(&ps, &spell_plain)), &ps, cx)
    }));
    let big = tier.pick(20_000, 88_000);
    let mut add_cli = |name: &'static str, total: u64, show: &'static str, run: Box<dyn Fn(u64, &mut Cx) -> Result<(), String>>| f.push(Family::new(name, total, 1, move |i| format!("{show} {i}"), run));
    add_cli("command-line", CLI, "command line on document", Box::new(move |i, cx| {
        let (doc, want) = cli_document(i, big);
        let dir = Scratch::new();
        dir.command_line(&doc, want.as_deref(), cx).map(|_| ()).map_err(shapes::cut)
    }));
    // what was written before does not matter
    let r = [CLI, CLI];
    let pairs: Vec<u64> = (0..product(&r)).filter(|i| { let d = digits(*i, &r); tier.pick(d[0] as u64 == BIG || [0, 2, 3, 5].contains(&d[0]), true) && d[1] as u64 != BIG }).collect();
    add_cli("command-line-again", pairs.len() as u64, "command line on a document and then on another in the same place", Box::new(move |i, cx| {
        let d = digits(pairs[i as usize], &r);
        let dir = Scratch::new();
        let (doc, want) = cli_document(d[0] as u64, big);
        let before = dir.command_line(&doc, want.as_deref(), cx).map_err(shapes::cut)?;
        let (doc, want) = cli_document(d[1] as u64, big);
        let after = dir.command_line(&doc, want.as_deref(), cx).map_err(|e| shapes::cut(format!("after another run: {e}")))?;
        let alone = Scratch::new().command_line(&doc, want.as_deref(), cx).map_err(shapes::cut)?;
        match (before, after, alone, want) {
            (before, after, _, None) if before != after => Err("a refused document changes the image written before".into()),
            // small catalogues: whatever the order of the products, their numbers take one byte each
            (_, Some(a), Some(b), Some(ps)) if ps.len() < 100 && a.len() != b.len() => Err(format!("the image has {} bytes, {} when nothing was written before", a.len(), b.len())),
            _ => Ok(()),
        }
    }));
    f
}

const CLI: u64 = 19;
const BIG: u64 = 18;

/// A document for the command line, and the catalogue it denotes if it does.
fn cli_document(i: u64, big: usize) -> (Vec<u8>, Option<Vec<P>>) {
    let esc = |_: usize, v: &str| J::Raw(format!("\"{}\"", v.chars().map(|c| spelling(c, 2).unwrap_or_default()).collect::<String>()));
    let of = |ps: Vec<P>| (text(&doc(&ps, &spell_plain)).into_bytes(), Some(ps));
    let plain = || text(&doc(&base(), &spell_plain));
    match i {
        0 => of(base()),
        1 => (text(&doc(&base(), &esc)).into_bytes(), Some(base())),
        2 => of(vec![]),
        3..=6 => of(shapes::structured([2, 10, 129, 300][i as usize - 3])),
        7 => ("".into(), None),
        8 => ("{".into(), None),
        9 => (plain().replacen("\"vendor\"", "\"vandor\"", 1).into(), None),
        10 => { let t = plain(); (t[..t.len() - 1].into(), None) }
        // products that differ in the id only
        11 => of((0..4).map(|j| P::new(&format!("gid/{j}")).desc("abcdef").title("same").price("2")).collect()),
        12 => of(with_field(1, "a\"\n\u{1D11E}\\")),
        // no text: damaged characters in a string, and a document in another encoding
        13 => {
            let mut b = plain().into_bytes();
            let at = plain().find("\"vendor\":").map_or(0, |k| k + 12);
            b[at] = 0xff;
            (b, None)
        }
        14 => (plain().encode_utf16().flat_map(u16::to_le_bytes).collect(), None),
        15 => ([b"\xef\xbb\xbf", plain().as_bytes()].concat(), None),
        16 => ([plain().as_bytes(), b" x"].concat(), None),
        17 => of(shapes::odd_catalogue("Size", "\u{e9} &")),
        _ => of(shapes::many(big)),
    }
}

/// A directory of its own.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let dir = verif_dir().join("target").join("scratch").join(format!("c14-cli-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir)
    }
    /// Runs the repository's command-line indexer on a document. Returns what is in the place of the image afterwards.
    fn command_line(&self, doc: &[u8], want: Option<&[P]>, cx: &mut Cx) -> Result<Option<Vec<u8>>, String> {
        let bin = std::env::current_exe().expect("own path").with_file_name("cli");
        let image = self.0.join("out.test");
        std::fs::write(self.0.join("test.json"), doc).expect("document");
        let before = std::fs::read(&image).ok();
        let out = std::process::Command::new(&bin).current_dir(&self.0).stdin(std::process::Stdio::null()).output().expect("command line indexer");
        let written = std::fs::read(&image).ok();
        cx.step(1);
        cx.trace();
        cx.state(&doc);
        match (want, &written) {
            (None, w) if *w == before && !out.status.success() && out.status.code().is_some() => (),
            (None, w) if *w == before => return Err(format!("the command line ends with {} for a refused document", out.status)),
            (None, w) => return Err(format!("the command line writes {:?} bytes for a document that must be refused", w.as_ref().map(Vec::len))),
            (Some(_), None) => return Err(format!("the command line writes nothing ({}): {}", out.status, String::from_utf8_lossy(&out.stderr))),
            (Some(ps), Some(b)) => {
                if !out.status.success() {
                    return Err(format!("the command line ends with {}", out.status));
                }
                let (got, want) = (content(b)?, expected(ps));
                cx.outcome(&got);
                if got != want {
                    return Err(diff(&got, &want));
                }
            }
        }
        Ok(written)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

fn main() {
    run(&Spec {
        prop: "C14",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["amounts are decimal numbers", "no member is given twice", "strings contain no NUL character; product ids are distinct"],
        bounds: |t| vec![
            format!("11 string positions x {} characters x 5 places x 4 spellings; all pairs of positions wholly escaped", CHARS.len()),
            "all 40320 member orders of a product; white space of 5 kinds in every gap; 8 extra members of 6 names at every place of every object; every missing member and 4 values of another kind".into(),
            t.pick("every truncation of two documents; every character replaced by 9 others", "every truncation of two documents; every character replaced by 20 others").into(),
            "every pair of products with two values for each of six fields, with and without a third product".into(),
            t.pick("the command line on 19 documents (one of 20 000 products), and on pairs of them one after the other in the same directory", "the command line on 19 documents (one of 88 000 products), and on every pair of them one after the other in the same directory").into(),
        ],
    })
}
