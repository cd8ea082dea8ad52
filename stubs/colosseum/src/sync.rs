use std::iter;
use std::mem;
use std::sync::Mutex;

use chunk_list::ChunkList;


/// A `Sync` arena.
pub struct Arena<T> {
    chunks: Mutex<ChunkList<T>>,
}


impl<T> Arena<T> {
    /// Create a new `Arena` with a default size of approximately 1024 bytes.
    pub fn new() -> Arena<T> {
        Arena { chunks: Mutex::new(ChunkList::new()) }
    }

    /// Create a new `Arena` with enough capacity for at least `n` `T`s without
    /// a reallocation.
    pub fn with_capacity(n: usize) -> Arena<T> {
        Arena { chunks: Mutex::new(ChunkList::with_capacity(n)) }
    }

    /// Allocate a single object in the arena.
    pub fn alloc(&self, t: T) -> &mut T {
        let _at = Point::new(self as *const Self as *const u8 as usize);
        // A statement of its own: the lock is released before `_at` is dropped.
        let out = unsafe {
            mem::transmute::<&mut T, &mut T>(&mut self.chunks
                                                      .lock()
                                                      .unwrap()
                                                      .alloc_extend(iter::once(t))
                                                      [0])
        };
        out
    }

    /// Allocate an arbitrary number of objects in the arena.
    pub fn alloc_extend<I: Iterator<Item = T>>(&self, iterable: I) -> &mut [T] {
        let _at = Point::new(self as *const Self as *const u8 as usize);
        let out = unsafe {
            mem::transmute::<&mut [T], &mut [T]>(self.chunks.lock().unwrap().alloc_extend(iterable))
        };
        out
    }
}


/// Verification builds: called with (true, arena) before the lock of an arena is taken and with
/// (false, arena) after it was released.
pub static HOOK: ::std::sync::OnceLock<fn(bool, usize)> = ::std::sync::OnceLock::new();

struct Point(usize);
impl Point {
    fn new(arena: usize) -> Point {
        if let Some(f) = HOOK.get() {
            f(true, arena);
        }
        Point(arena)
    }
}
impl Drop for Point {
    fn drop(&mut self) {
        if let Some(f) = HOOK.get() {
            f(false, self.0);
        }
    }
}
