//! Values of every serialisable kind.
use ahash::AHashMap;
use colosseum::sync::Arena;
use indexer_lib::serialize::{sequential_array, serialize_string_with_limit, ArenaDeserializable, ArenaDeserializableCollection, Deserializable, DeserializableCollection, Serializable};

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool),
    U8(u8),
    U32(u32),
    U64(u64),
    Usize(usize),
    Char(char),
    F32(u32),
    Str(String),
    ListU32(Vec<u32>),
    ListUsize(Vec<usize>),
    ListF32(Vec<u32>),
    ListStr(Vec<String>),
    Arr1([char; 1]),
    Arr3([char; 3]),
    Arr5([char; 5]),
    ArrU([u32; 4]),
    Arr0([char; 0]),
    ArrB([u8; 2]),
    ArrF([bool; 3]),
    ArrW([usize; 2]),
    /// an array of arrays
    ArrA([[char; 2]; 2]),
    ListC(Vec<char>),
    ListBool(Vec<bool>),
    ListU64(Vec<u64>),
    ListList(Vec<Vec<usize>>),
    ListArr(Vec<[char; 2]>),
    /// written as a list of references
    ListRef(Vec<u32>),
    /// written as a borrowed string
    Borrowed(String),
    MapAL(Vec<([char; 2], Vec<usize>)>),
    MapBF(Vec<(u8, u32)>),
    MapSU(Vec<(String, Vec<usize>)>),
    MapUC(Vec<(u32, char)>),
    SeqUsize(Vec<usize>),
    SeqU32(Vec<u32>),
    /// a string written by the shortening serialiser with a generous limit
    Limited(String),
    /// arrays decoded through the collection interface
    ColU([u32; 4]),
    ColC([char; 3]),
    ColS([u8; 130]),
    /// a list and a map of values that live in an arena
    Kept(Vec<(u32, char)>),
    KeptMap(Vec<(String, (u32, char))>),
}

/// A value that is decoded into an arena.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Atom(u32, char);

impl Serializable for &Atom {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        self.0.serialize(output);
        self.1.serialize(output);
    }
}

impl<'a> ArenaDeserializable<'a, Atom> for Atom {
    fn deserialize_arena<'i>(input: &'i [u8], arena: &'a Arena<Atom>) -> Option<(&'i [u8], &'a Atom)>
    where
        'a: 'i,
    {
        let (input, n) = u32::deserialize(input)?;
        let (input, c) = char::deserialize(input)?;
        Some((input, arena.alloc(Atom(n, c))))
    }
}

fn arena() -> &'static Arena<Atom> {
    static A: std::sync::OnceLock<Arena<Atom>> = std::sync::OnceLock::new();
    A.get_or_init(Arena::new)
}

fn kept<T: ArenaDeserializableCollection<'static, Atom>>(i: &[u8]) -> Option<(&[u8], T)> {
    T::deserialize_arena(i, arena())
}

fn col<T: DeserializableCollection>(i: &[u8], f: impl FnOnce(T) -> Val) -> Option<(&[u8], Val)> {
    let (rest, v) = T::deserialize(i)?;
    Some((rest, f(v)))
}

fn put<T: Serializable>(t: T, out: &mut Vec<u8>) {
    t.serialize(&mut |b| out.push(b));
}

impl Val {
    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            Val::Bool(v) => put(*v, out),
            Val::U8(v) => put(*v, out),
            Val::U32(v) => put(*v, out),
            Val::U64(v) => put(*v, out),
            Val::Usize(v) => put(*v, out),
            Val::Char(v) => put(*v, out),
            Val::F32(v) => put(f32::from_bits(*v), out),
            Val::Str(v) => put(v.clone(), out),
            Val::ListU32(v) => put(v, out),
            Val::ListUsize(v) => put(v.clone(), out),
            Val::ListF32(v) => put(&v.iter().map(|b| f32::from_bits(*b)).collect::<Vec<f32>>(), out),
            Val::ListStr(v) => put(v, out),
            Val::Arr1(v) => put(*v, out),
            Val::Arr3(v) => put(*v, out),
            Val::Arr5(v) => put(*v, out),
            Val::ArrU(v) => put(*v, out),
            Val::Arr0(v) => put(*v, out),
            Val::ArrB(v) => put(*v, out),
            Val::ArrF(v) => put(*v, out),
            Val::ArrW(v) => put(*v, out),
            Val::ArrA(v) => put(*v, out),
            Val::ListC(v) => put(v, out),
            Val::ListBool(v) => put(v, out),
            Val::ListU64(v) => put(v, out),
            Val::ListList(v) => put(v, out),
            Val::ListArr(v) => put(v, out),
            Val::ListRef(v) => put(v.iter().collect::<Vec<&u32>>(), out),
            Val::Borrowed(v) => put(v.as_str(), out),
            Val::MapAL(v) => put(v.iter().cloned().collect::<AHashMap<[char; 2], Vec<usize>>>(), out),
            Val::MapBF(v) => put(v.iter().map(|(k, f)| (*k, f32::from_bits(*f))).collect::<AHashMap<u8, f32>>(), out),
            Val::MapSU(v) => put(v.iter().cloned().collect::<AHashMap<String, Vec<usize>>>(), out),
            Val::MapUC(v) => put(v.iter().copied().collect::<AHashMap<u32, char>>(), out),
            Val::SeqUsize(v) => sequential_array::serialize(v.iter().copied(), &mut |b| out.push(b)),
            Val::SeqU32(v) => sequential_array::serialize(v.iter().copied(), &mut |b| out.push(b)),
            Val::Limited(v) => serialize_string_with_limit(v, v.len() + 3, &mut |b| out.push(b)),
            Val::ColU(v) => put(*v, out),
            Val::ColC(v) => put(*v, out),
            Val::ColS(v) => put(*v, out),
            Val::Kept(v) => {
                let atoms: Vec<Atom> = v.iter().map(|(n, c)| Atom(*n, *c)).collect();
                put(&atoms.iter().collect::<Vec<&Atom>>(), out)
            }
            Val::KeptMap(v) => {
                let atoms: Vec<(String, Atom)> = v.iter().map(|(k, (n, c))| (k.clone(), Atom(*n, *c))).collect();
                put(atoms.iter().map(|(k, a)| (k.clone(), a)).collect::<AHashMap<String, &Atom>>(), out)
            }
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.encode(&mut v);
        v
    }

    /// Decodes a value of the same kind; the canonical form sorts maps.
    pub fn decode<'i>(&self, input: &'i [u8]) -> Option<(&'i [u8], Val)> {
        fn get<T: Deserializable>(i: &[u8], f: impl FnOnce(T) -> Val) -> Option<(&[u8], Val)> {
            let (rest, v) = T::deserialize(i)?;
            Some((rest, f(v)))
        }
        match self {
            Val::Bool(_) => get(input, Val::Bool),
            Val::U8(_) => get(input, Val::U8),
            Val::U32(_) => get(input, Val::U32),
            Val::U64(_) => get(input, Val::U64),
            Val::Usize(_) => get(input, Val::Usize),
            Val::Char(_) => get(input, Val::Char),
            Val::F32(_) => get(input, |f: f32| Val::F32(f.to_bits())),
            Val::Str(_) => get(input, Val::Str),
            Val::ListU32(_) => get(input, Val::ListU32),
            Val::ListUsize(_) => get(input, Val::ListUsize),
            Val::ListF32(_) => get(input, |v: Vec<f32>| Val::ListF32(v.into_iter().map(f32::to_bits).collect())),
            Val::ListStr(_) => get(input, Val::ListStr),
            Val::Arr1(_) => get(input, Val::Arr1),
            Val::Arr3(_) => get(input, Val::Arr3),
            Val::Arr5(_) => get(input, Val::Arr5),
            Val::ArrU(_) => get(input, Val::ArrU),
            Val::Arr0(_) => get(input, Val::Arr0),
            Val::ArrB(_) => get(input, Val::ArrB),
            Val::ArrF(_) => get(input, Val::ArrF),
            Val::ArrW(_) => get(input, Val::ArrW),
            Val::ArrA(_) => get(input, Val::ArrA),
            Val::ListC(_) => get(input, Val::ListC),
            Val::ListBool(_) => get(input, Val::ListBool),
            Val::ListU64(_) => get(input, Val::ListU64),
            Val::ListList(_) => get(input, Val::ListList),
            Val::ListArr(_) => get(input, Val::ListArr),
            Val::ListRef(_) => get(input, Val::ListRef),
            Val::Borrowed(_) => get(input, Val::Borrowed),
            Val::MapAL(_) => get(input, |m: AHashMap<[char; 2], Vec<usize>>| {
                let mut v: Vec<_> = m.into_iter().collect();
                v.sort();
                Val::MapAL(v)
            }),
            Val::MapBF(_) => get(input, |m: AHashMap<u8, f32>| {
                let mut v: Vec<_> = m.into_iter().map(|(k, f)| (k, f.to_bits())).collect();
                v.sort();
                Val::MapBF(v)
            }),
            Val::MapSU(_) => get(input, |m: AHashMap<String, Vec<usize>>| {
                let mut v: Vec<_> = m.into_iter().collect();
                v.sort();
                Val::MapSU(v)
            }),
            Val::MapUC(_) => get(input, |m: AHashMap<u32, char>| {
                let mut v: Vec<_> = m.into_iter().collect();
                v.sort();
                Val::MapUC(v)
            }),
            Val::SeqUsize(_) => sequential_array::deserialize(input).map(|(r, v)| (r, Val::SeqUsize(v))),
            Val::SeqU32(_) => sequential_array::deserialize(input).map(|(r, v)| (r, Val::SeqU32(v))),
            Val::Limited(_) => get(input, Val::Limited),
            Val::ColU(_) => col(input, Val::ColU),
            Val::ColC(_) => col(input, Val::ColC),
            Val::ColS(_) => col(input, Val::ColS),
            Val::Kept(_) => {
                let (rest, v) = kept::<Vec<&'static Atom>>(input)?;
                Some((rest, Val::Kept(v.into_iter().map(|a| (a.0, a.1)).collect())))
            }
            Val::KeptMap(_) => {
                let (rest, m) = kept::<AHashMap<String, &'static Atom>>(input)?;
                let mut v: Vec<_> = m.into_iter().map(|(k, a)| (k, (a.0, a.1))).collect();
                v.sort();
                Some((rest, Val::KeptMap(v)))
            }
        }
    }

    /// What decoding must give: maps by key, id sequences ascending.
    pub fn canonical(&self) -> Val {
        let mut v = self.clone();
        match &mut v {
            Val::MapSU(m) => m.sort(),
            Val::MapUC(m) => m.sort(),
            Val::MapAL(m) => m.sort(),
            Val::MapBF(m) => m.sort(),
            Val::KeptMap(m) => m.sort(),
            Val::SeqUsize(s) => s.sort_unstable(),
            Val::SeqU32(s) => s.sort_unstable(),
            _ => {}
        }
        v
    }

    pub fn same(&self, other: &Val) -> bool {
        match (self, other) {
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::U8(a), Val::U8(b)) => a == b,
            (Val::U32(a), Val::U32(b)) | (Val::F32(a), Val::F32(b)) => a == b,
            (Val::U64(a), Val::U64(b)) => a == b,
            (Val::Usize(a), Val::Usize(b)) => a == b,
            (Val::Char(a), Val::Char(b)) => a == b,
            (Val::Str(a), Val::Str(b)) | (Val::Limited(a), Val::Limited(b)) => a == b,
            (Val::ListU32(a), Val::ListU32(b)) | (Val::ListF32(a), Val::ListF32(b)) | (Val::SeqU32(a), Val::SeqU32(b)) => a == b,
            (Val::ListUsize(a), Val::ListUsize(b)) | (Val::SeqUsize(a), Val::SeqUsize(b)) => a == b,
            (Val::ListStr(a), Val::ListStr(b)) => a == b,
            (Val::Arr1(a), Val::Arr1(b)) => a == b,
            (Val::Arr3(a), Val::Arr3(b)) => a == b,
            (Val::Arr5(a), Val::Arr5(b)) => a == b,
            (Val::ArrU(a), Val::ArrU(b)) => a == b,
            (Val::Arr0(a), Val::Arr0(b)) => a == b,
            (Val::ArrB(a), Val::ArrB(b)) => a == b,
            (Val::ArrF(a), Val::ArrF(b)) => a == b,
            (Val::ArrW(a), Val::ArrW(b)) => a == b,
            (Val::ArrA(a), Val::ArrA(b)) => a == b,
            (Val::ListC(a), Val::ListC(b)) => a == b,
            (Val::ListBool(a), Val::ListBool(b)) => a == b,
            (Val::ListU64(a), Val::ListU64(b)) => a == b,
            (Val::ListList(a), Val::ListList(b)) => a == b,
            (Val::ListArr(a), Val::ListArr(b)) => a == b,
            (Val::ListRef(a), Val::ListRef(b)) => a == b,
            (Val::Borrowed(a), Val::Borrowed(b)) => a == b,
            (Val::ColU(a), Val::ColU(b)) => a == b,
            (Val::ColC(a), Val::ColC(b)) => a == b,
            (Val::ColS(a), Val::ColS(b)) => a == b,
            (Val::Kept(a), Val::Kept(b)) => a == b,
            (Val::KeptMap(a), Val::KeptMap(b)) => a == b,
            (Val::MapAL(a), Val::MapAL(b)) => a == b,
            (Val::MapBF(a), Val::MapBF(b)) => a == b,
            (Val::MapSU(a), Val::MapSU(b)) => a == b,
            (Val::MapUC(a), Val::MapUC(b)) => a == b,
            _ => false,
        }
    }
}

pub const NUMBERS: &[u64] = &[
    0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3fff, 0x4000, 0x1f_ffff, 0x20_0000, 0x0fff_ffff, 0x1000_0000, 0xffff_ffff, 0x1_0000_0000,
    (1 << 35) - 1, 1 << 35, (1 << 42) - 1, 1 << 42, (1 << 49) - 1, 1 << 49, (1 << 56) - 1, 1 << 56, (1 << 56) + 1, (1 << 57) + 0x55, (1 << 62) + 3, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX,
];

/// A menu of values of every kind.
pub fn menu() -> Vec<Val> {
    let mut out = vec![Val::Bool(false), Val::Bool(true), Val::U8(0), Val::U8(0x80), Val::U8(0xff)];
    for n in NUMBERS {
        out.push(Val::U64(*n));
        out.push(Val::Usize(*n as usize));
        if let Ok(n) = u32::try_from(*n) {
            out.push(Val::U32(n));
        }
    }
    out.extend(['\0', 'a', '\u{7f}', '\u{80}', '\u{3fff}', '\u{4000}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'].map(Val::Char));
    out.extend([0, 0x8000_0000, 1, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff, 0x8080_8080].map(Val::F32));
    for s in ["", "a", "é", "€", "\u{1F47D}", "\0", "a b\n", "\u{80}\u{7ff}"] {
        out.push(Val::Str(s.into()));
        out.push(Val::Limited(s.into()));
    }
    for k in [126, 127, 128, 129] {
        out.push(Val::Str("x".repeat(k)));
        out.push(Val::ListU32((0..k as u32).collect()));
        out.push(Val::SeqUsize((0..k).map(|i| i * 3).collect()));
    }
    for l in [vec![], vec![0], vec![128], vec![0, 0], vec![1, 127, 128], vec![u32::MAX, 0, u32::MAX]] {
        out.push(Val::ListU32(l.clone()));
        out.push(Val::ListF32(l.clone()));
        out.push(Val::SeqU32(l.clone()));
        out.push(Val::ListUsize(l.iter().map(|x| *x as usize).collect()));
        out.push(Val::SeqUsize(l.iter().map(|x| *x as usize).collect()));
    }
    for l in [vec![], vec![""], vec!["a", ""], vec!["é€", "\u{1F47D}", "zz"]] {
        out.push(Val::ListStr(l.iter().map(|s| (*s).to_string()).collect()));
    }
    out.extend(["a", "\0", "\u{1F47D}"].map(|s| Val::Arr1([s.chars().next().unwrap_or('a')])));
    out.push(Val::Arr3(['\0', 'é', '\u{10ffff}']));
    out.push(Val::Arr3(['a', 'a', 'a']));
    out.push(Val::Arr5(['k', 'u', 'n', 's', 't']));
    out.push(Val::ArrU([0, 127, 128, u32::MAX]));
    out.push(Val::Arr0([]));
    out.push(Val::ArrB([0, 0x80]));
    out.push(Val::ArrF([true, false, true]));
    out.push(Val::ArrW([usize::MAX, 0]));
    out.push(Val::ArrA([['a', '\u{10ffff}'], ['\0', '\u{80}']]));
    for l in [vec![], vec!['\0'], vec!['a', '\u{10ffff}', 'a']] {
        out.push(Val::ListBool(l.iter().map(|c| *c == 'a').collect()));
        out.push(Val::ListU64(l.iter().map(|c| u64::from(u32::from(*c)) << 40).collect()));
        out.push(Val::ListArr(l.iter().map(|c| [*c, 'b']).collect()));
        out.push(Val::ListRef(l.iter().map(|c| u32::from(*c)).collect()));
        out.push(Val::ListList(l.iter().map(|c| vec![u32::from(*c) as usize; usize::from(*c == 'a') * 2]).collect()));
        out.push(Val::ListC(l));
    }
    out.push(Val::Borrowed("a€".into()));
    out.push(Val::ColU([0, 127, 128, u32::MAX]));
    out.push(Val::ColC(['\0', 'é', '\u{10ffff}']));
    out.push(Val::ColS(std::array::from_fn(|i| (i * 37) as u8)));
    for l in [vec![], vec![(0, 'a')], vec![(128, '\u{10ffff}'), (u32::MAX, '\0'), (128, 'é')]] {
        out.push(Val::KeptMap(l.iter().enumerate().map(|(k, v)| (["", "é", "price"][k].to_string(), *v)).collect()));
        out.push(Val::Kept(l));
    }
    out.push(Val::Kept((0..130).map(|k| (k * 3, 'x')).collect()));
    for m in [vec![], vec![(['a', 'b'], vec![]), (['\0', '\0'], vec![3, 3]), (['b', 'a'], vec![1 << 40])]] {
        out.push(Val::MapAL(m));
    }
    out.push(Val::MapBF(vec![(0, 0x7fc0_0001), (0xff, 0x8000_0000), (0x80, 0)]));
    for m in [vec![], vec![("", vec![])], vec![("a", vec![1, 0]), ("é", vec![300])], vec![("x", vec![]), ("y", vec![128, 128]), ("zz", vec![0])]] {
        out.push(Val::MapSU(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect()));
    }
    for m in [vec![], vec![(0, 'a')], vec![(127, 'é'), (128, '\u{10ffff}'), (u32::MAX, '\0')]] {
        out.push(Val::MapUC(m));
    }
    out
}
