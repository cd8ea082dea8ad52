use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

use vharness::engine::*;
use vharness::model::P;
#[path = "../parts/vals.rs"]
mod vals;
use vals::*;
use vharness::{shapes, sys};

fn small_images() -> Vec<(String, Vec<P>)> {
    vec![
        ("no products".into(), vec![]),
        ("one empty product".into(), vec![P::new("")]),
        ("one product".into(), vec![P::new("12").desc("ab ba").title("ba").vendor("v").tag("t").opt("c", &["o"]).media("u").price("1.5")]),
        ("two products, non-ASCII".into(), vec![P::new("1").desc("æøå").title("\u{1F47D}").vendor("ü"), P::new("2").desc("abc").opt("s", &["x", "y"]).tag("é").price("-3")]),
        ("three products".into(), shapes::structured(3)),
        ("structured 6".into(), shapes::structured(6)),
        ("long texts".into(), vec![P::new(&"9".repeat(130)).title(&"word ".repeat(40)), P::new("x").vendor(&"é".repeat(70)).tag(&"t".repeat(128)).opt(&"k".repeat(127), &["a", "b"])]),
    ]
}

fn encode(n: usize, ps: &[P]) -> Result<Vec<u8>, String> {
    match n {
        1 => sys::image_n::<1>(ps),
        2 => sys::image_n::<2>(ps),
        3 => sys::image_n::<3>(ps),
        4 => sys::image_n::<4>(ps),
        5 => sys::image_n::<5>(ps),
        6 => sys::image_n::<6>(ps),
        7 => sys::image_n::<7>(ps),
        8 => sys::image_n::<8>(ps),
        _ => sys::image_n::<9>(ps),
    }
}
/// The system's allocator, keeping the books: what is in use, and the most that was.
struct Counted;

static USED: AtomicUsize = AtomicUsize::new(0);
static MOST: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MOST.fetch_max(USED.fetch_add(l.size(), Relaxed).wrapping_add(l.size()), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        MOST.fetch_max(USED.fetch_add(l.size(), Relaxed).wrapping_add(l.size()), Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        USED.fetch_sub(l.size(), Relaxed);
        MOST.fetch_max(USED.fetch_add(size, Relaxed).wrapping_add(size), Relaxed);
        System.realloc(p, l, size)
    }
}

#[global_allocator]
static COUNTED: Counted = Counted;

/// Runs a decoder and asks that it used at most 64 MB and some kilobytes for every byte of its input.
fn frugal<T>(len: usize, decoder: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let before = USED.load(Relaxed);
    MOST.store(before, Relaxed);
    let r = decoder()?;
    let most = MOST.load(Relaxed).saturating_sub(before);
    if most > (64 << 20) + len * 8192 {
        return Err(format!("decoding {len} bytes asks for {most} bytes of memory"));
    }
    Ok(r)
}

/// Some(true): an index came back.
fn accepts(n: usize, bytes: &[u8]) -> Result<bool, String> {
    frugal(bytes.len(), || decoded(n, bytes))
}

fn decoded(n: usize, bytes: &[u8]) -> Result<bool, String> {
    Ok(match n {
        1 => sys::decode::<1>(bytes)?.is_some(),
        2 => sys::decode::<2>(bytes)?.is_some(),
        3 => sys::decode::<3>(bytes)?.is_some(),
        4 => sys::decode::<4>(bytes)?.is_some(),
        5 => sys::decode::<5>(bytes)?.is_some(),
        6 => sys::decode::<6>(bytes)?.is_some(),
        7 => sys::decode::<7>(bytes)?.is_some(),
        8 => sys::decode::<8>(bytes)?.is_some(),
        _ => sys::decode::<9>(bytes)?.is_some(),
    })
}

const HOSTILE: &[u8] = &[0x00, 0x01, 0x02, 0x05, 0x7f, 0x80, 0x81, 0xc3, 0xff];

fn families(tier: Tier) -> Vec<Family> {
    let mut fams = Vec::new();
    // every truncation of every image; a case is (gram length, image, residue of the cut)
    let imgs = small_images();
    let names: Vec<String> = imgs.iter().map(|x| x.0.clone()).collect();
    let big: Vec<(String, Vec<P>)> = [20usize, 64, 130].iter().map(|n| (format!("structured {n}"), shapes::structured(*n))).collect();
    let split = 16u64;
    let radix = [9, imgs.len() as u64, split];
    let nm = names.clone();
    let im = imgs.clone();
    fams.push(Family::new("truncations", product(&radix), 24, move |i| { let d = digits(i, &radix); format!("image '{}' of gram length {}, every cut = {} mod {split}", nm[d[1]], d[0] + 1, d[2]) }, move |i, cx| {
        let d = digits(i, &radix);
        truncations(cx, d[0] + 1, &im[d[1]].1, d[2], split as usize)
    }));
    let split = tier.pick(64u64, 512);
    let radix = [2, big.len() as u64, split];
    let b2 = big.clone();
    let step = tier.pick(29usize, 1);
    fams.push(Family::new("truncations-large", product(&radix), 2, move |i| { let d = digits(i, &radix); format!("image '{}' of gram length {}, residue {} mod {split}", big[d[1]].0, [3, 5][d[0]], d[2]) }, move |i, cx| {
        let d = digits(i, &radix);
        truncations(cx, [3, 5][d[0]], &b2[d[1]].1, d[2] * step, split as usize * step)
    }));
    // every single-byte replacement
    let split = tier.pick(32u64, 64);
    let radix = [5, imgs.len() as u64, split];
    let nm = names.clone();
    let im = imgs.clone();
    fams.push(Family::new("byte-damage", product(&radix), 4, move |i| { let d = digits(i, &radix); format!("image '{}' of gram length {}, every offset = {} mod {split}", nm[d[1]], d[0] + 1, d[2]) }, move |i, cx| {
        let d = digits(i, &radix);
        let n = d[0] + 1;
        let bytes = encode(n, &im[d[1]].1)?;
        let mut at = d[2];
        let mut x = bytes.clone();
        while at < bytes.len() {
            let values: Vec<u8> = if tier == Tier::Thorough { (0..=255).collect() } else { HOSTILE.iter().copied().chain([bytes[at] ^ 1, bytes[at] ^ 0x80, bytes[at].wrapping_add(1), bytes[at].wrapping_sub(1)]).collect() };
            for v in values {
                x[at] = v;
                let ok = accepts(n, &x).map_err(|e| format!("byte {at} of {} replaced by {v:#04x}: {e}", bytes.len()))?;
                cx.outcome(&("damaged", ok, d[1]));
                cx.step(1);
                cx.trace();
            }
            x[at] = bytes[at];
            cx.state(&(n, d[1], at));
            at += split as usize;
        }
        Ok(())
    }));
    // two adjacent damaged bytes and removed / duplicated bytes on the small images
    let split = 32u64;
    let radix = [2, 4, split];
    let nm = names.clone();
    let im = imgs.clone();
    fams.push(Family::new("double-damage", product(&radix), 4, move |i| { let d = digits(i, &radix); format!("image '{}' of gram length {}, offsets = {} mod {split}", nm[d[1]], [2, 5][d[0]], d[2]) }, move |i, cx| {
        let d = digits(i, &radix);
        let n = [2, 5][d[0]];
        let bytes = encode(n, &im[d[1]].1)?;
        let mut at = d[2];
        while at + 1 < bytes.len() {
            for a in HOSTILE {
                for b in HOSTILE {
                    let mut x = bytes.clone();
                    x[at] = *a;
                    x[at + 1] = *b;
                    let ok = accepts(n, &x).map_err(|e| format!("bytes {at},{} replaced by {a:#04x} {b:#04x}: {e}", at + 1))?;
                    cx.outcome(&("double", ok));
                    cx.step(1);
                    cx.trace();
                }
            }
            let mut x = bytes.clone();
            x.remove(at);
            accepts(n, &x).map_err(|e| format!("byte {at} removed: {e}"))?;
            let mut x = bytes.clone();
            x.insert(at, bytes[at]);
            accepts(n, &x).map_err(|e| format!("byte {at} duplicated: {e}"))?;
            // a huge length in place of this byte
            for len in [&[0xff, 0xff, 0xff, 0xff, 0x0f][..], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01], &[0x80, 0x80, 0x80, 0x80, 0x10]] {
                let mut x = bytes[..at].to_vec();
                x.extend_from_slice(len);
                x.extend_from_slice(&bytes[at + 1..]);
                accepts(n, &x).map_err(|e| format!("byte {at} replaced by the number {len:02x?}: {e}"))?;
                let cut = at + len.len();
                if accepts(n, &x[..cut]).map_err(|e| format!("byte {at} replaced by the number {len:02x?} and cut there: {e}"))? && cut < bytes.len() {
                    // an index made of less than the image: acceptable only if nothing was missing
                    cx.outcome(&"short image accepted");
                }
            }
            cx.step(12);
            cx.state(&("double", n, d[1], at));
            at += split as usize;
        }
        Ok(())
    }));
    // a huge number in place of every byte: counts, lengths, identities and differences of identities
    let split = 32u64;
    let radix = [tier.pick(2, 5), imgs.len() as u64, split];
    let nm = names.clone();
    let im = imgs.clone();
    fams.push(Family::new("huge-numbers", product(&radix), 4, move |i| { let d = digits(i, &radix); format!("image '{}' of gram length {}, a huge number at every offset = {} mod {split}", nm[d[1]], [3, 5, 1, 2, 9][d[0]], d[2]) }, move |i, cx| {
        let d = digits(i, &radix);
        let n = [3, 5, 1, 2, 9][d[0]];
        let bytes = encode(n, &im[d[1]].1)?;
        let numbers: Vec<u64> = [8, 16, 24, 31, 32, 33, 48, 60, 62, 63].iter().flat_map(|k| [(1u64 << k) - 1, 1 << k]).chain([u64::MAX - 2, u64::MAX - 1, u64::MAX]).collect();
        let mut at = d[2];
        while at < bytes.len() {
            for number in &numbers {
                let mut x = bytes[..at].to_vec();
                let mut rest = *number;
                while rest > 0x7f {
                    x.push(rest as u8 | 0x80);
                    rest >>= 7;
                }
                x.push(rest as u8);
                x.extend_from_slice(&bytes[at + 1..]);
                let ok = accepts(n, &x).map_err(|e| format!("byte {at} of {} replaced by the number {number}: {e}", bytes.len()))?;
                cx.outcome(&("huge", ok, d[1]));
                cx.step(1);
                cx.trace();
            }
            cx.state(&("huge", n, d[1], at));
            at += split as usize;
        }
        Ok(())
    }));
    // images for one gram length given to the loader of another
    let radix = [9, 9, imgs.len() as u64];
    let nm = names.clone();
    let im = imgs.clone();
    fams.push(Family::new("other-gram-length", product(&radix), 80, move |i| { let d = digits(i, &radix); format!("image '{}' of gram length {} loaded as {}", nm[d[2]], d[0] + 1, d[1] + 1) }, move |i, cx| {
        let d = digits(i, &radix);
        let bytes = encode(d[0] + 1, &im[d[2]].1)?;
        let ok = accepts(d[1] + 1, &bytes)?;
        if d[0] == d[1] && !ok {
            return Err("a freshly saved image is refused".into());
        }
        cx.state(&(d[0], d[1], d[2]));
        cx.outcome(&("gram length", ok));
        cx.step(1);
        cx.trace();
        Ok(())
    }));
    // strict prefixes of single values
    let m = menu();
    let m2 = m.clone();
    fams.push(Family::new("value-prefixes", m.len() as u64, 60, move |i| format!("every strict prefix of the encoding of {:?}", m[i as usize]), move |i, cx| {
        let v = &m2[i as usize];
        let bytes = v.bytes();
        for cut in 0..bytes.len() {
            let got = guarded(|| v.decode(&bytes[..cut]).map(|(_, g)| format!("{g:?}")))?;
            if let Some(g) = got {
                return Err(format!("the first {cut} of {} bytes {bytes:02x?} of {v:?} are accepted as {g}", bytes.len()));
            }
            cx.step(1);
            cx.trace();
        }
        cx.state(&format!("{v:?}"));
        cx.outcome(&bytes.len());
        Ok(())
    }));
    // all short byte strings fed to every decoder; what they return must not depend on bytes they did not consume
    let kinds: Vec<Val> = vec![
        Val::Bool(true), Val::U8(0), Val::U32(0), Val::U64(0), Val::Usize(0), Val::Char('a'), Val::F32(0), Val::Str(String::new()), Val::ListU32(vec![]), Val::ListUsize(vec![]), Val::ListF32(vec![]),
        Val::ListStr(vec![]), Val::Arr1(['a']), Val::Arr3(['a'; 3]), Val::Arr5(['a'; 5]), Val::ArrU([0; 4]), Val::MapSU(vec![]), Val::MapUC(vec![]), Val::SeqUsize(vec![]), Val::SeqU32(vec![]), Val::ColC(['a'; 3]), Val::Kept(vec![]), Val::KeptMap(vec![]),
    ];
    let nk = kinds.len();
    let run_bytes = move |cx: &mut Cx, kinds: &[Val], bytes: &[u8]| -> Result<(), String> {
        for v in kinds {
            let kind = std::mem::discriminant(v);
            let got = frugal(bytes.len(), || {
                guarded(|| v.decode(bytes).map(|(rest, g)| (rest.len(), bytes[bytes.len().saturating_sub(rest.len())..].as_ptr() == rest.as_ptr(), g)))
            })
            .map_err(|e| format!("{bytes:02x?} given to the decoder of {v:?}: {e}"))?;
            cx.step(1);
            match got {
                None => cx.outcome(&(kind, "refused")),
                Some((left, suffix, g)) => {
                    if left > bytes.len() || !suffix {
                        return Err(format!("{bytes:02x?} given to the decoder of {v:?}: the remaining input is not the end of the input"));
                    }
                    let used = bytes.len() - left;
                    cx.outcome(&(kind, used));
                    // exactly the consumed bytes give the same value, and nothing shorter is accepted
                    let again = guarded(|| v.decode(&bytes[..used]).map(|(r, h)| r.is_empty() && h.same(&g)))?;
                    if again != Some(true) {
                        return Err(format!("{bytes:02x?} given to the decoder of {v:?}: value {g:?} depends on more than the {used} bytes consumed"));
                    }
                    if used > 0 && guarded(|| v.decode(&bytes[..used - 1]).is_some())? {
                        return Err(format!("{:02x?} given to the decoder of {v:?}: accepted although the last byte is missing", &bytes[..used - 1]));
                    }
                    cx.trace();
                }
            }
        }
        cx.state(bytes);
        Ok(())
    };
    let k2 = kinds.clone();
    fams.push(Family::new("bytes-all-2", 1 + 256 + 65536, 4400, move |i| format!("{:02x?} to {nk} decoders", any_bytes(i)), move |i, cx| run_bytes(cx, &k2, &any_bytes(i))));
    let alpha: &'static [u8] = tier.pick(&[0x00, 0x01, 0x02, 0x61, 0x80, 0xff], &[0x00, 0x01, 0x02, 0x03, 0x61, 0x80, 0xc3, 0xff]);
    let max = tier.pick(6u32, 7);
    let a = alpha.len() as u64;
    let total: u64 = (3..=max).map(|l| a.pow(l)).sum();
    let hb = move |mut i: u64| {
        let mut l = 3;
        while i >= a.pow(l) {
            i -= a.pow(l);
            l += 1;
        }
        digits(i, &vec![a; l as usize]).into_iter().map(|d| alpha[d]).collect::<Vec<u8>>()
    };
    let k3 = kinds.clone();
    fams.push(Family::new("bytes-hostile", total, 4000, move |i| format!("{:02x?} to {nk} decoders", hb(i)), move |i, cx| run_bytes(cx, &k3, &hb(i))));
    // long numbers: 8..12 bytes
    let alpha2: &'static [u8] = &[0x00, 0x01, 0x7f, 0x80, 0xff];
    let nb = move |i: u64| {
        let d = digits(i, &[5, 3, 5, 5, 5]);
        let mut v = vec![[0x80, 0xff, 0x81][d[1]]; 6 + d[0]];
        v.extend([alpha2[d[2]], alpha2[d[3]], alpha2[d[4]]]);
        v
    };
    fams.push(Family::new("bytes-long-numbers", 5 * 3 * 125, 500, move |i| format!("{:02x?} to {nk} decoders", nb(i)), move |i, cx| run_bytes(cx, &kinds, &nb(i))));
    // short byte strings given to the loader itself
    let alpha3: &'static [u8] = &[0x00, 0x01, 0x02, 0x80, 0xff];
    let total: u64 = (0..=7u32).map(|l| 5u64.pow(l)).sum();
    let lb = move |mut i: u64| {
        let mut l = 0;
        while i >= 5u64.pow(l) {
            i -= 5u64.pow(l);
            l += 1;
        }
        digits(i, &vec![5; l as usize]).into_iter().map(|d| alpha3[d]).collect::<Vec<u8>>()
    };
    fams.push(Family::new("loader-short-input", total, 6000, move |i| format!("{:02x?}", lb(i)), move |i, cx| {
        let b = lb(i);
        for n in [1, 3, 5] {
            // the shortest image (nothing in it) has seven counts; shorter input cannot be one
            if accepts(n, &b)? && b.len() < 7 {
                return Err(format!("{b:02x?} is accepted as an image of gram length {n}"));
            }
            cx.step(1);
            cx.trace();
        }
        cx.state(&b);
        Ok(())
    }));
    fams
}

fn any_bytes(i: u64) -> Vec<u8> {
    match i {
        0 => vec![],
        1..=256 => vec![(i - 1) as u8],
        _ => ((i - 257) as u16).to_be_bytes().to_vec(),
    }
}

fn truncations(cx: &mut Cx, n: usize, ps: &[P], residue: usize, modulus: usize) -> Result<(), String> {
    let bytes = encode(n, ps)?;
    if residue == 0 && !accepts(n, &bytes)? {
        return Err("the complete image is refused".into());
    }
    let mut cut = residue;
    while cut < bytes.len() {
        if accepts(n, &bytes[..cut]).map_err(|e| format!("the first {cut} of {} bytes: {e}", bytes.len()))? {
            return Err(format!("the first {cut} of {} bytes are accepted as a complete image", bytes.len()));
        }
        cx.state(&(n, ps.len(), bytes.len(), cut));
        cx.step(1);
        cx.trace();
        cut += modulus;
    }
    cx.outcome(&(n, bytes.len()));
    Ok(())
}

fn main() {
    run(&Spec {
        prop: "C03",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["arithmetic as in the release profile (overflow wraps)", "memory is bounded if decoding n bytes never holds more than 64 MB + 8192 n; address space limited to 6 GB per worker", "stack of 8 MB"],
        bounds: |t| vec![
            "every truncation point of 7 small images for gram lengths 1..9".into(),
            t.pick("every 29th truncation point of three larger images (20, 64, 130 products)", "every truncation point of three larger images").into(),
            t.pick("13 hostile replacements at every offset of 7 images x 5 gram lengths", "all 256 replacements at every offset of 7 images x 5 gram lengths").into(),
            "hostile pairs, removal, duplication and huge numbers at every offset of 4 images".into(),
            "every pair of gram lengths 1..9; every strict prefix of every value of a menu".into(),
            "memory held while decoding: at most 64 MB + 8 192 bytes per byte of input, for every one of these".into(),
            "all byte strings up to length 2 and all hostile ones up to length 6 (thorough 7) to 23 decoders; all 5-letter byte strings up to length 7 to the loader".into(),
        ],
    })
}
