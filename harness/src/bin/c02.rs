use std::rc::Rc;

use vharness::engine::*;
use vharness::model::strings;
use vharness::sys;
#[path = "../parts/vals.rs"]
mod vals;
use vals::*;

const SUFFIX: &[&[u8]] = &[&[], &[0], &[1], &[0x7f], &[0x80], &[0xff, 0xff], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1, 5]];

fn check(v: &Val, suffixes: &[&[u8]]) -> Result<usize, String> {
    let bytes = v.bytes();
    let want = v.canonical();
    let mut input = bytes.clone();
    for s in suffixes {
        input.truncate(bytes.len());
        input.extend_from_slice(s);
        match v.decode(&input) {
            None => return Err(format!("{v:?} encoded as {bytes:02x?} is refused when followed by {s:02x?}")),
            Some((rest, got)) => {
                if !got.same(&want) {
                    return Err(format!("{v:?} encoded as {bytes:02x?}, followed by {s:02x?}, decodes to {got:?}"));
                }
                if rest != *s || rest.as_ptr() != input[bytes.len()..].as_ptr() {
                    return Err(format!("{v:?} encoded as {} bytes {bytes:02x?}, followed by {s:02x?}, leaves {rest:02x?}", bytes.len()));
                }
            }
        }
    }
    Ok(bytes.len())
}

const DIMS: [usize; 11] = [0, 1, 2, 3, 4, 5, 8, 127, 128, 129, 130];

macro_rules! dims {
    ($n:expr, $f:ident, $t:ty, $($a:expr),*) => {
        match $n {
            0 => $f::<$t, 0>($($a),*),
            1 => $f::<$t, 1>($($a),*),
            2 => $f::<$t, 2>($($a),*),
            3 => $f::<$t, 3>($($a),*),
            4 => $f::<$t, 4>($($a),*),
            5 => $f::<$t, 5>($($a),*),
            8 => $f::<$t, 8>($($a),*),
            127 => $f::<$t, 127>($($a),*),
            128 => $f::<$t, 128>($($a),*),
            129 => $f::<$t, 129>($($a),*),
            _ => $f::<$t, 130>($($a),*),
        }
    };
}

fn array_of<T: indexer_lib::serialize::Serializable + Copy, const N: usize>(t: T, out: &mut Vec<u8>) {
    indexer_lib::serialize::Serializable::serialize(&[t; N], &mut |b| out.push(b));
}

fn reads<T: indexer_lib::serialize::Deserializable + Default + Copy + PartialEq, const N: usize>(t: T, input: &[u8]) -> [Option<(usize, bool)>; 2] {
    let a = <[T; N] as indexer_lib::serialize::Deserializable>::deserialize(input).map(|(rest, v)| (rest.len(), v == [t; N]));
    let b = <[T; N] as indexer_lib::serialize::DeserializableCollection>::deserialize(input).map(|(rest, v)| (rest.len(), v == [t; N]));
    [a, b]
}

/// An array of m equal values is an array of m values and no other.
fn other_length<T: indexer_lib::serialize::Serializable + indexer_lib::serialize::Deserializable + Default + Copy + PartialEq + std::fmt::Debug>(cx: &mut Cx, m: usize, n: usize, t: T) -> Result<(), String> {
    let mut bytes = Vec::new();
    dims!(m, array_of, T, t, &mut bytes);
    bytes.extend_from_slice(&[1; 700]);
    let want = if m == n { Some((700, true)) } else { None };
    for got in guarded(|| dims!(n, reads, T, t, &bytes))? {
        if got != want {
            return Err(format!("an array of {m} times {t:?}, read as one of {n}, gives (bytes left, equal) {got:?}"));
        }
    }
    cx.step(2);
    cx.trace();
    Ok(())
}

fn one(cx: &mut Cx, v: &Val) -> Result<(), String> {
    let n = guarded(|| check(v, SUFFIX))??;
    cx.state(&format!("{v:?}"));
    cx.outcome(&(std::mem::discriminant(v), n));
    cx.step(1 + SUFFIX.len() as u64);
    cx.trace();
    Ok(())
}

/// A long value: the report leaves its contents out.
fn long(cx: &mut Cx, n: usize, v: &Val) -> Result<(), String> {
    let bytes = guarded(|| check(v, &[&[], &[0x80, 1]]))?.map_err(vharness::shapes::cut)?;
    cx.state(&(std::mem::discriminant(v), n));
    cx.outcome(&(std::mem::discriminant(v), bytes));
    cx.step(3);
    cx.trace();
    Ok(())
}

/// An array of any length, plain and as the items of a list.
fn array<T: indexer_lib::serialize::Serializable + indexer_lib::serialize::Deserializable + Copy + PartialEq + Default, const N: usize>(cx: &mut Cx, make: fn(usize) -> T) -> Result<(), String>
where
    [T; N]: indexer_lib::serialize::Serializable + indexer_lib::serialize::Deserializable,
{
    use indexer_lib::serialize::{Deserializable, Serializable};
    for first in [0, 77] {
        let v: [T; N] = std::array::from_fn(|i| make(i + first));
        guarded(|| -> Result<(), String> {
            for after in [&[][..], &[0x80, 1]] {
                let mut bytes = Vec::new();
                v.serialize(&mut |b| bytes.push(b));
                let own = bytes.len();
                bytes.extend_from_slice(after);
                match <[T; N]>::deserialize(&bytes) {
                    Some((rest, got)) if got == v && rest == after && rest.as_ptr() == bytes[own..].as_ptr() => {}
                    Some((rest, got)) => return Err(format!("an array of {N} values, followed by {after:02x?}, decodes to {} one and leaves {} bytes", if got == v { "the same" } else { "another" }, rest.len())),
                    None => return Err(format!("an array of {N} values, followed by {after:02x?}, is refused")),
                }
                let mut bytes = Vec::new();
                (&vec![v, v]).serialize(&mut |b| bytes.push(b));
                bytes.extend_from_slice(after);
                match Vec::<[T; N]>::deserialize(&bytes) {
                    Some((rest, got)) if got.len() == 2 && got[0] == v && got[1] == v && rest == after => {}
                    o => return Err(format!("a list of two arrays of {N} values, followed by {after:02x?}, is {}", if o.is_some() { "decoded to something else" } else { "refused" })),
                }
            }
            Ok(())
        })??;
        cx.step(8);
        cx.trace();
    }
    cx.state(&(std::any::type_name::<T>(), N));
    cx.outcome(&N);
    Ok(())
}

type ArrayCase = (usize, fn(&mut Cx) -> Result<(), String>);

fn arrays() -> Vec<ArrayCase> {
    fn at<const N: usize>() -> ArrayCase {
        (N, |cx| {
            array::<char, N>(cx, |i| char::from_u32([0, 0x61, 0x7f, 0x80, 0x3fff, 0x4000, 0x10_ffff][i % 7]).unwrap_or('a'))?;
            array::<u8, N>(cx, |i| (i * 37) as u8)?;
            array::<bool, N>(cx, |i| i % 3 == 1)?;
            array::<u32, N>(cx, |i| (i as u32).wrapping_mul(0x9E37_79B9) >> (i % 32))?;
            array::<usize, N>(cx, |i| i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (i % 64))?;
            array::<f32, N>(cx, |i| i as f32 / 3.0)
        })
    }
    vec![
        at::<0>(), at::<1>(), at::<2>(), at::<3>(), at::<4>(), at::<5>(), at::<6>(), at::<7>(), at::<8>(), at::<9>(), at::<12>(), at::<15>(), at::<16>(), at::<17>(), at::<20>(), at::<31>(), at::<32>(), at::<33>(), at::<50>(), at::<63>(), at::<64>(), at::<65>(),
        at::<100>(), at::<126>(), at::<127>(), at::<128>(), at::<129>(), at::<130>(), at::<200>(), at::<254>(), at::<255>(), at::<256>(), at::<257>(), at::<300>(), at::<511>(), at::<512>(), at::<513>(), at::<1000>(), at::<1024>(), at::<1025>(), at::<4096>(), at::<4097>(),
    ]
}

/// Decoding keeps numeric loops cheap: a block of values per case.
fn block<T: Copy + std::fmt::Debug>(cx: &mut Cx, from: u64, to: u64, f: impl Fn(u64) -> Option<T>, mk: impl Fn(T) -> Val, few: &[&[u8]]) -> Result<(), String> {
    let mut n = 0;
    let mut lens = [0u64; 16];
    guarded(|| -> Result<(), String> {
        for i in from..to {
            if let Some(x) = f(i) {
                let len = check(&mk(x), few)?;
                lens[len.min(15)] += 1;
                n += 1;
            }
        }
        Ok(())
    })??;
    cx.state(&(from, to));
    for (l, c) in lens.iter().enumerate() {
        if *c > 0 {
            cx.outcome(&l);
        }
    }
    cx.step(n * (1 + few.len() as u64));
    cx.traces += n;
    Ok(())
}

/// The same for 32-bit kinds, without heap use per value: encode, decode, compare bits and remainder.
fn fast<T: indexer_lib::serialize::Serializable + indexer_lib::serialize::Deserializable + Copy>(cx: &mut Cx, from: u64, to: u64, f: impl Fn(u64) -> u32, make: impl Fn(u32) -> T, bits: impl Fn(T) -> u32, after: u8) -> Result<(), String> {
    let mut lens = [0u64; 32];
    guarded(|| -> Result<(), String> {
        for i in from..to {
            let raw = f(i);
            let mut buf = [after; 32];
            let mut n = 0;
            make(raw).serialize(&mut |b| {
                if n < 24 {
                    buf[n] = b;
                }
                n += 1;
            });
            if n == 0 || n > 16 {
                return Err(format!("the value with bits {raw:#x} is encoded in {n} bytes"));
            }
            buf[n] = after;
            let input = &buf[..n + 1];
            match T::deserialize(input) {
                Some((rest, v)) if bits(v) == raw && rest.len() == 1 && rest.as_ptr() == input[n..].as_ptr() => (),
                Some((rest, v)) => return Err(format!("the value with bits {raw:#x}, encoded as {:02x?}, decodes to bits {:#x} and leaves {rest:02x?} of {:02x?}", &buf[..n], bits(v), &[after])),
                None => return Err(format!("the value with bits {raw:#x}, encoded as {:02x?}, is refused when followed by {after:#x}", &buf[..n])),
            }
            lens[n] += 1;
        }
        Ok(())
    })??;
    cx.state(&(from, to, after));
    for (l, c) in lens.iter().enumerate() {
        if *c > 0 {
            cx.outcome(&l);
        }
    }
    cx.step(2 * (to - from));
    cx.traces += to - from;
    Ok(())
}

fn families(tier: Tier) -> Vec<Family> {
    let mut fams = Vec::new();
    let m = menu();
    let m2 = m.clone();
    fams.push(Family::new("menu", m.len() as u64, 400, move |i| format!("{:?}", m[i as usize]), move |i, cx| one(cx, &m2[i as usize])));

    // all 64-bit values by 7-bit groups: every group from {0, 1, 0x40, 0x7f}, top bit 0/1
    let g: &'static [u64] = tier.pick(&[0, 1, 0x7f], &[0, 1, 0x40, 0x7f]);
    let radix: Vec<u64> = std::iter::once(2).chain((0..9).map(|_| g.len() as u64)).collect();
    let radix2 = radix.clone();
    let value = move |i: u64| {
        let d = digits(i, &radix2);
        d[1..].iter().enumerate().fold((d[0] as u64) << 63, |a, (k, x)| a | (g[*x] << (7 * k)))
    };
    let total = product(&radix);
    let v2 = value.clone();
    let v3 = value.clone();
    let b = 512;
    fams.push(Family::new("u64-groups", (total + b - 1) / b, 40, move |i| format!("values {:#x}..", value(i * b)), move |i, cx| {
        block(cx, i * b, ((i + 1) * b).min(total), |k| Some(v2(k)), Val::U64, SUFFIX)?;
        block(cx, i * b, ((i + 1) * b).min(total), |k| Some(v3(k) as usize), Val::Usize, &SUFFIX[..2])
    }));
    // every power of two, +-3, with a second bit anywhere
    fams.push(Family::new("u64-two-bits", 64, 16, |i| format!("2^{i} + 2^j + -3..3"), |i, cx| {
        block(cx, 0, 64 * 7, |k| Some((1u64 << i).wrapping_add(1 << (k / 7)).wrapping_add(k % 7).wrapping_sub(3)), Val::U64, SUFFIX)
    }));
    // 32-bit integers and floats
    let (n32, name32, namef) = tier.pick((1u64 << 27, "u32-below-2^27", "f32-patterns"), (1 << 32, "u32-all", "f32-all"));
    let b = 1u64 << 20;
    fams.push(Family::new(name32, n32 / b, 4, move |i| format!("{:#x}..{:#x}", i * b, (i + 1) * b), move |i, cx| fast(cx, i * b, (i + 1) * b, |k| k as u32, |v| v, |v| v, 0x80)));
    fams.push(Family::new(namef, n32 / b, 4, move |i| format!("block {i} of 2^20 bit patterns"), move |i, cx| {
        fast(cx, i * b, (i + 1) * b, |k| if n32 == 1 << 32 { k as u32 } else { (k as u32).rotate_left(13) ^ (k as u32 >> 7) }, f32::from_bits, f32::to_bits, 0xff)
    }));
    let b = 1u64 << 16;
    fams.push(Family::new("u32-high", 64, 4, |i| format!("block {i}"), move |i, cx| block(cx, i * b, (i + 1) * b, |k| Some(u32::MAX - (k as u32) * 1021), Val::U32, &[&[], &[1]])));
    // every character
    let b = 0x4000u64;
    fams.push(Family::new("chars", 0x11_0000 / b, 2, move |i| format!("U+{:04X}..", i * b), move |i, cx| block(cx, i * b, (i + 1) * b, |k| char::from_u32(k as u32), Val::Char, &[&[], &[0x81]])));
    fams.push(Family::new("bytes-bools", 256, 256, |i| format!("{i}"), |i, cx| {
        one(cx, &Val::U8(i as u8))?;
        one(cx, &Val::Bool(i % 2 == 1))?;
        // every non-zero byte is a true flag
        let d = Val::Bool(false).decode(&[i as u8, 9]).map(|(r, v)| (r.len(), v.same(&Val::Bool(i != 0))));
        if d != Some((1, true)) {
            return Err(format!("the flag byte {i} decodes to {d:?}"));
        }
        Ok(())
    }));
    // strings
    let all = strings(&['a', ' ', '\0', 'é', '€', '\u{1F47D}'], 0, tier.pick(5, 7));
    let all2 = all.clone();
    fams.push(Family::new("strings", all.len() as u64, 4000, move |i| format!("{:?}", all[i as usize]), move |i, cx| {
        one(cx, &Val::Str(all2[i as usize].clone()))?;
        one(cx, &Val::Limited(all2[i as usize].clone()))?;
        one(cx, &Val::ListStr(vec![all2[i as usize].clone(), String::new(), all2[i as usize].clone()]))
    }));
    let lens: Vec<usize> = (0..=300).chain(16380..=16388).chain([65535, 65536, 2_097_151, 2_097_152]).collect();
    let l2 = lens.clone();
    fams.push(Family::new("lengths", lens.len() as u64, 40, move |i| format!("strings, lists, id sequences and maps of length {}", lens[i as usize]), move |i, cx| {
        let n = l2[i as usize];
        one(cx, &Val::Str("x".repeat(n)))?;
        if n <= 65536 {
            one(cx, &Val::Str("é".repeat(n / 2)))?;
            one(cx, &Val::ListU32((0..n as u32).map(|k| k * 13).collect()))?;
            one(cx, &Val::ListUsize((0..n).map(|k| k * 129).collect()))?;
            one(cx, &Val::SeqUsize((0..n).rev().map(|k| k * k).collect()))?;
            one(cx, &Val::SeqUsize((0..n).map(|k| k / 2).collect()))?;
            one(cx, &Val::Kept((0..n as u32).map(|k| (k * 13, 'k')).collect()))?;
            one(cx, &Val::MapUC((0..n as u32).map(|k| (k * 7, char::from_u32(k + 32).unwrap_or('x'))).collect()))?;
        }
        Ok(())
    }));
    let lens: Vec<usize> = tier.pick(vec![65_537, 70_000, 100_000, 131_071, 131_072, 131_073, 1 << 20, 2_097_151, 2_097_152, 2_097_153], vec![65_537, 70_000, 100_000, 131_071, 131_072, 131_073, 262_144, 1 << 19, 1 << 20, 2_097_151, 2_097_152, 2_097_153, 1 << 22, (1 << 23) + 1]);
    let l2 = lens.clone();
    fams.push(Family::new("long", lens.len() as u64, 1, move |i| format!("strings, lists, id sequences and maps of length {}", lens[i as usize]), move |i, cx| {
        let n = l2[i as usize];
        long(cx, n, &Val::Str("é".repeat(n / 2)))?;
        long(cx, n, &Val::Limited("a€".repeat(n / 4)))?;
        long(cx, n, &Val::ListU32((0..n as u32).map(|k| k.wrapping_mul(977)).collect()))?;
        long(cx, n, &Val::ListF32((0..n as u32).map(|k| k.wrapping_mul(1021)).collect()))?;
        long(cx, n, &Val::ListUsize((0..n).map(|k| k * 129).collect()))?;
        long(cx, n, &Val::ListBool((0..n).map(|k| k % 5 == 2).collect()))?;
        long(cx, n, &Val::ListC((0..n as u32).map(|k| char::from_u32(k % 0xd000).unwrap_or('x')).collect()))?;
        long(cx, n, &Val::SeqUsize((0..n).rev().map(|k| k * k).collect()))?;
        long(cx, n, &Val::SeqUsize((0..n).map(|k| k / 2).collect()))?;
        long(cx, n, &Val::SeqU32((0..n as u32).collect()))?;
        if n <= 131_073 {
            long(cx, n, &Val::ListStr((0..n).map(|k| format!("{k}")).collect()))?;
            long(cx, n, &Val::MapUC((0..n as u32).map(|k| (k * 7, char::from_u32(k % 0xd000 + 32).unwrap_or('x'))).collect()))?;
            long(cx, n, &Val::MapSU((0..n).map(|k| (format!("{k}"), vec![k; k % 3])).collect()))?;
        }
        Ok(())
    }));
    let all = Rc::new(arrays());
    let a2 = all.clone();
    fams.push(Family::new("array-lengths", all.len() as u64, 6, move |i| format!("arrays of {} values", all[i as usize].0), move |i, cx| a2[i as usize].1(cx)));
    let k = DIMS.len() as u64;
    fams.push(Family::new("other-lengths", k * k, 20, move |i| format!("arrays of {} read as arrays of {}", DIMS[(i / k) as usize], DIMS[(i % k) as usize]), move |i, cx| {
        let (m, n) = (DIMS[(i / k) as usize], DIMS[(i % k) as usize]);
        other_length(cx, m, n, 0u8)?;
        other_length(cx, m, n, 1u8)?;
        other_length(cx, m, n, 300u32)?;
        other_length(cx, m, n, '\u{1f47d}')?;
        other_length(cx, m, n, u64::MAX)?;
        other_length(cx, m, n, [1usize, 2])
    }));
    // short lists of every number class
    let nums: &'static [u64] = &[0, 1, 127, 128, 16383, 16384, 0xffff_ffff];
    let k = nums.len() as u64;
    let maxlen = tier.pick(4, 5);
    let count: u64 = (0..=maxlen).map(|l| k.pow(l)).sum();
    let list = move |mut i: u64| {
        let mut len = 0;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        digits(i, &vec![k; len as usize]).into_iter().map(|d| nums[d]).collect::<Vec<u64>>()
    };
    fams.push(Family::new("lists", count, 700, move |i| format!("{:?}", list(i)), move |i, cx| {
        let l = list(i);
        let l32: Vec<u32> = l.iter().map(|x| *x as u32).collect();
        let lus: Vec<usize> = l.iter().map(|x| *x as usize).collect();
        one(cx, &Val::ListU32(l32.clone()))?;
        one(cx, &Val::ListF32(l32.clone()))?;
        one(cx, &Val::ListUsize(lus.clone()))?;
        one(cx, &Val::SeqU32(l32.clone()))?;
        one(cx, &Val::SeqUsize(lus.clone()))?;
        one(cx, &Val::ListU64(l.iter().map(|x| x << 31).collect()))?;
        one(cx, &Val::ListRef(l32.clone()))?;
        one(cx, &Val::ListList(vec![lus.clone(), vec![], lus]))?;
        one(cx, &Val::Kept(l32.iter().map(|n| (*n, char::from_u32(n % 0xd800).unwrap_or('a'))).collect()))?;
        if l32.len() == 4 {
            one(cx, &Val::ArrU([l32[0], l32[1], l32[2], l32[3]]))?;
            one(cx, &Val::ColU([l32[0], l32[1], l32[2], l32[3]]))?;
        }
        Ok(())
    }));
    let cs: &'static [char] = &['\0', 'a', '\u{80}', '\u{4000}', '\u{10ffff}'];
    fams.push(Family::new("arrays", 5u64.pow(5), 400, move |i| format!("{:?}", digits(i, &[5; 5]).into_iter().map(|d| cs[d]).collect::<Vec<_>>()), move |i, cx| {
        let d: Vec<char> = digits(i, &[5; 5]).into_iter().map(|d| cs[d]).collect();
        one(cx, &Val::Arr5([d[0], d[1], d[2], d[3], d[4]]))?;
        one(cx, &Val::Arr3([d[0], d[1], d[2]]))?;
        one(cx, &Val::ColC([d[0], d[1], d[2]]))?;
        one(cx, &Val::Arr1([d[0]]))?;
        one(cx, &Val::Arr0([]))?;
        one(cx, &Val::ArrA([[d[0], d[1]], [d[2], d[3]]]))?;
        one(cx, &Val::ListC(d.clone()))?;
        one(cx, &Val::ListArr(vec![[d[0], d[1]], [d[2], d[3]]]))?;
        one(cx, &Val::ArrB([d[0], d[1]].map(|c| u32::from(c) as u8)))?;
        one(cx, &Val::ArrF([d[0], d[1], d[2]].map(|c| c == 'a')))?;
        one(cx, &Val::ArrW([d[0], d[1]].map(|c| (u32::from(c) as usize) << 41)))?;
        one(cx, &Val::ListBool(d.iter().map(|c| *c == 'a').collect()))
    }));
    // all maps over five keys with three values or absent, under several hash orders
    let keys = ["", "a", "é", "price", "image_url"];
    fams.push(Family::new("maps", 4u64.pow(5) * 4, 1000, move |i| format!("{:?} seed {}", digits(i / 4, &[4; 5]), i % 4), move |i, cx| {
        sys::set_seed(i % 4);
        let d = digits(i / 4, &[4; 5]);
        let vals = [vec![], vec![0], vec![128, 3]];
        one(cx, &Val::MapSU(d.iter().enumerate().filter(|(_, v)| **v > 0).map(|(k, v)| (keys[k].to_string(), vals[v - 1].clone())).collect()))?;
        one(cx, &Val::KeptMap(d.iter().enumerate().filter(|(_, v)| **v > 0).map(|(k, v)| (keys[k].to_string(), ([0, 128, u32::MAX][v - 1], ['a', '\0', '\u{10ffff}'][v - 1]))).collect()))?;
        one(cx, &Val::MapUC(d.iter().enumerate().filter(|(_, v)| **v > 0).map(|(k, v)| ([0, 1, 127, 128, u32::MAX][k], ['a', '\0', '\u{10ffff}'][v - 1])).collect()))?;
        one(cx, &Val::MapBF(d.iter().enumerate().filter(|(_, v)| **v > 0).map(|(k, v)| ([0, 1, 127, 128, 255][k], [0, 0x7fc0_0001, 0x8000_0000][v - 1])).collect()))?;
        one(cx, &Val::MapAL(d.iter().enumerate().filter(|(_, v)| **v > 0).map(|(k, v)| ([['\0', '\0'], ['a', '\0'], ['\0', 'a'], ['a', 'b'], ['é', '\u{10ffff}']][k], vals[v - 1].clone())).collect()))
    }));
    // concatenations of values of all kinds
    let m = menu();
    let k = m.len() as u64;
    let (len, thin) = tier.pick((2usize, 1u64), (3, 1));
    let m2 = m.clone();
    fams.push(Family::new("concatenations", k.pow(len as u32) / thin, 6000, move |i| format!("{:?}", digits(i, &vec![k; len]).iter().map(|d| m2[*d].clone()).collect::<Vec<_>>()), move |i, cx| {
        let vs: Vec<&Val> = digits(i, &vec![k; len]).into_iter().map(|d| &m[d]).collect();
        guarded(|| {
            let mut all = Vec::new();
            let mut parts = Vec::new();
            for v in &vs {
                v.encode(&mut all);
                parts.extend(v.bytes());
            }
            if all.len() != parts.len() {
                return Err(format!("encodings of {vs:?} depend on what was written before"));
            }
            let mut rest = &all[..];
            for v in &vs {
                let Some((r, got)) = v.decode(rest) else { return Err(format!("{v:?} in {vs:?} is refused")) };
                if !got.same(&v.canonical()) {
                    return Err(format!("{v:?} in the sequence {vs:?} decodes to {got:?}"));
                }
                rest = r;
            }
            if !rest.is_empty() {
                return Err(format!("{} bytes are left after decoding {vs:?}", rest.len()));
            }
            Ok(())
        })??;
        cx.state(&i);
        cx.step(2 * len as u64);
        cx.trace();
        Ok(())
    }));
    fams
}

fn main() {
    run(&Spec {
        prop: "C02",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["pointer-sized integers are 64 bits wide in the checked build"],
        bounds: |t| vec![
            t.pick("u32 below 2^27 and 2^22 values near the top; 2^27 f32 patterns", "all 2^32 u32 values and f32 bit patterns").into(),
            t.pick("u64: every combination of 7-bit groups from {0,1,7f} with both top bits, every sum of two powers of two +-3", "u64: every combination of 7-bit groups from {0,1,40,7f} with both top bits, every sum of two powers of two +-3").into(),
            "every Unicode scalar value, every byte, both flags".into(),
            t.pick("all strings up to 5 characters over {a,space,NUL,2-,3-,4-byte}", "all strings up to 7 characters over {a,space,NUL,2-,3-,4-byte}").into(),
            "strings, lists, id sequences and maps of 10 lengths from 65 537 to 2^21 + 1 (thorough: 14 up to 2^23 + 1); arrays of 42 lengths 0..4097 of six kinds, alone and in lists; arrays of 11 lengths 0..130 read as each other".into(),
            "collections of every length 0..300 and around 2^14, 2^16, 2^21; all lists of class representatives up to length 4 (5)".into(),
            "7 suffixes after every value; all concatenations of 2 (thorough 3) values from a menu of every kind".into(),
        ],
    })
}
