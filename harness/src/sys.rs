//! Thin access to the code under test.
use std::sync::atomic::{AtomicU64, Ordering};

use colosseum::sync::Arena;
use indexer_lib as ix;
use ix::classic_indexes::ClassicIndexes;
use ix::data::{Product, RawProduct, SuperAlloc};
use ix::ngram::{GramIndex, GramNode};

use crate::engine::guarded;
use crate::model::P;

pub type Gi<const N: usize> = GramIndex<'static, char, Product<'static>, N>;

static SEED: AtomicU64 = AtomicU64::new(0x51);
static COUNT: AtomicU64 = AtomicU64::new(0);
/// Called at every creation of a hash table (a scheduling point of C18).
pub static ON_TABLE: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();

struct Source;
static FIXED: [[u64; 4]; 2] = [
    [0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344, 0xa409_3822_299f_31d0, 0x082e_fa98_ec4e_6c89],
    [0x4528_21e6_38d0_1377, 0xbe54_66cf_34e9_0c6c, 0xc0ac_29b7_c97c_50dd, 0x3f84_d5b5_b547_0917],
];
impl ahash::RandomSource for Source {
    fn get_fixed_seeds(&self) -> &'static [[u64; 4]; 2] {
        &FIXED
    }
    fn gen_hasher_seed(&self) -> usize {
        if let Some(f) = ON_TABLE.get() {
            f();
        }
        let c = COUNT.fetch_add(1, Ordering::Relaxed);
        SEED.load(Ordering::Relaxed).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(c.wrapping_mul(0xD1B5_4A32_D192_ED03)) as usize
    }
}

/// Owns the iteration order of every hash table made afterwards.
pub fn set_seed(seed: u64) {
    SEED.store(seed, Ordering::Relaxed);
    COUNT.store(0, Ordering::Relaxed);
}

/// To be called once per worker process before anything else.
pub fn init() {
    ix::init_panic_hook();
    ahash::RandomState::set_random_source(Source).ok();
    set_seed(1);
}

pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

pub fn super_alloc() -> &'static SuperAlloc {
    leak(SuperAlloc::new())
}

pub fn json_list(ps: &[P]) -> String {
    serde_json::Value::Array(ps.iter().map(P::json).collect()).to_string()
}

/// The catalogue as raw products, in order.
pub fn raw(ps: &[P]) -> Result<Vec<RawProduct<'static>>, String> {
    let s: &'static str = Box::leak(json_list(ps).into_boxed_str());
    serde_json::from_str(s).map_err(|e| format!("the catalogue is refused: {e}"))
}

pub fn image_n<const N: usize>(ps: &[P]) -> Result<Vec<u8>, String> {
    let raw = raw(ps)?;
    match guarded(|| ix::index_and_serialize_with_n::<N>(raw, super_alloc()).map_err(|e| e.to_string())) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) | Err(e) => Err(format!("indexing failed: {e}")),
    }
}

/// The image of the gram length the exported functions use.
pub fn image(ps: &[P]) -> Result<Vec<u8>, String> {
    let raw = raw(ps)?;
    match guarded(|| ix::index_and_serialize(raw, super_alloc()).map_err(|e| e.to_string())) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) | Err(e) => Err(format!("indexing failed: {e}")),
    }
}

pub fn decode<const N: usize>(bytes: &[u8]) -> Result<Option<(Gi<N>, ClassicIndexes<'static>)>, String> {
    guarded(|| {
        let arena: &'static Arena<GramNode<'static, char>> = leak(Arena::new());
        ix::serialize::deserialize_all::<char, N>(bytes, arena, super_alloc())
    })
}

pub fn must_decode<const N: usize>(bytes: &[u8]) -> Result<(Gi<N>, ClassicIndexes<'static>), String> {
    match decode::<N>(bytes)? {
        Some(v) => Ok(v),
        None => Err("a freshly saved image is refused".into()),
    }
}

/// Loads an image into the process-wide index. Ok(false)/Err: the load was refused or panicked.
pub fn load(bytes: &[u8]) -> Result<bool, String> {
    guarded(|| ix::initialize(bytes))
}

pub fn must_load(bytes: &[u8]) -> Result<(), String> {
    match load(bytes) {
        Ok(true) => Ok(()),
        Ok(false) => Err("initialize returned false for a freshly saved image".into()),
        Err(e) => Err(format!("initialize of a freshly saved image: {e}")),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Found {
    pub id: String,
    pub title: String,
    pub desc: String,
    pub price: Option<f64>,
    pub image: Option<String>,
}

/// Drains a result, never asking more than `cap` times.
pub fn drain(r: &mut ix::js_interactable::ProductProducer, cap: usize) -> Vec<Found> {
    let mut out = Vec::new();
    while out.len() < cap {
        let Some(p) = r.next_product() else { break };
        out.push(Found { id: p.get_id(), title: p.get_title(), desc: p.get_description(), price: p.numeric_feature("price"), image: p.string_feature("image_url") });
    }
    out
}
pub fn drain_ids(r: &mut ix::js_interactable::ProductProducer, cap: usize) -> Vec<String> {
    let mut out = Vec::new();
    while out.len() < cap {
        let Some(p) = r.next_product() else { break };
        out.push(p.get_id());
    }
    out
}

pub use ix::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, TagHandler};

pub fn categories() -> Result<Option<CategoryHandler>, String> {
    guarded(ix::get_categories)
}
pub fn tags() -> Result<Option<TagHandler>, String> {
    guarded(ix::get_tags)
}

pub struct Session {
    pub cats: CategoryHandler,
    pub tags: TagHandler,
}
impl Session {
    pub fn new() -> Result<Session, String> {
        Ok(Session {
            cats: categories()?.ok_or("get_categories reports nothing although an index is loaded")?,
            tags: tags()?.ok_or("get_tags reports nothing although an index is loaded")?,
        })
    }
    /// ids of a search; Ok(None) = no result object.
    pub fn ids(&self, q: &str, order: Option<&str>, filter: &js_sys::Object, cap: usize) -> Result<Option<Vec<String>>, String> {
        guarded(|| ix::search(q, &self.cats, &self.tags, order.map(String::from), filter).map(|mut r| drain_ids(&mut r, cap)))
    }
    pub fn found(&self, q: &str, order: Option<&str>, filter: &js_sys::Object, cap: usize) -> Result<Option<Vec<Found>>, String> {
        guarded(|| ix::search(q, &self.cats, &self.tags, order.map(String::from), filter).map(|mut r| drain(&mut r, cap)))
    }
}

pub fn no_filter() -> js_sys::Object {
    js_sys::Object::new()
}

/// All (category name, [(option name, handle)]) in cursor order.
pub fn list_categories(h: &CategoryHandler, cap: usize) -> Result<Vec<(String, Vec<(String, ExportCategoryOption)>)>, String> {
    guarded(|| {
        let mut out = Vec::new();
        let mut it = h.iter();
        while out.len() < cap {
            let Some(mut c) = it.next_item() else { break };
            let mut opts = Vec::new();
            while opts.len() < cap {
                let Some(o) = c.next_item() else { break };
                opts.push((o.get_name(), o));
            }
            out.push((c.name(), opts));
        }
        out
    })
}
pub fn list_tags(h: &TagHandler, cap: usize) -> Result<Vec<JSTag>, String> {
    guarded(|| {
        let mut out = Vec::new();
        let mut it = h.tags();
        while out.len() < cap {
            let Some(t) = it.next_tag() else { break };
            out.push(t);
        }
        out
    })
}
/// Offered sort orders, sorted; None if nothing is loaded.
pub fn orders() -> Result<Option<Vec<String>>, String> {
    guarded(|| {
        ix::get_orders().map(|v| {
            let mut v: Vec<String> = v.iter().map(|j| j.as_string().unwrap_or_else(|| "<not a string>".into())).collect();
            v.sort();
            v
        })
    })
}
/// (tag name, input word) of a suggestion.
pub fn suggest(q: &str) -> Result<Option<(String, String)>, String> {
    guarded(|| ix::tag_suggestion(q).map(|s| (s.get_tag().get_name(), s.get_input())))
}

/// The catalogue position of a product found by id.
pub fn positions(ps: &[P], ids: &[String]) -> Result<Vec<usize>, String> {
    let mut at = std::collections::HashMap::with_capacity(ps.len());
    for (i, p) in ps.iter().enumerate() {
        at.entry(p.id.as_str()).or_insert(i);
    }
    ids.iter().map(|id| at.get(id.as_str()).copied().ok_or_else(|| format!("result contains unknown id {id:?}"))).collect()
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

/// Runs `f` in a child process that starts from the current state of this one (for histories that
/// must begin before the first load). The child's answer is returned.
pub fn forked(f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            alarm(50);
            let (tag, text) = match guarded(f) {
                Ok(Ok(s)) => ('+', s),
                Ok(Err(s)) | Err(s) => ('-', s),
            };
            let msg = format!("{tag}{text}");
            let mut rest = msg.as_bytes();
            while !rest.is_empty() {
                let n = write(fds[1], rest.as_ptr(), rest.len());
                if n <= 0 {
                    break;
                }
                rest = &rest[n as usize..];
            }
            _exit(0);
        }
        close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        if status != 0 {
            return Err(format!("the process died or hung (wait status {status:#x})"));
        }
        let s = String::from_utf8_lossy(&out).into_owned();
        match s.strip_prefix('+') {
            Some(t) => Ok(t.to_string()),
            None => Err(s.strip_prefix('-').unwrap_or("the process ended without an answer").to_string()),
        }
    }
}
