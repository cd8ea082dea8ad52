//! Stands in for `std` when the crate under test is compiled for schedule exploration: everything of
//! the standard library, except that the synchronisation primitives report what they do to `HOOK`.
//! They behave like the real ones, which they contain.
pub use ::std::*;

/// What the running thread is about to do or has done. The number is the lock's address.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event {
    /// before a lock is taken, exclusively or shared
    Acquire(usize, bool),
    /// after an attempt to take a lock that does not wait has succeeded
    Taken(usize, bool),
    /// after a lock was given back
    Release(usize),
    /// the same, and the thread does something else in the same step
    Unlocked(usize),
    /// before an operation on shared memory
    Step,
    /// the thread waits for others in a loop
    Yield,
    /// the thread waits for a condition variable
    Wait(usize),
    /// one or all threads that wait for a condition variable go on
    Notify(usize, bool),
}
pub static HOOK: ::std::sync::OnceLock<fn(Event)> = ::std::sync::OnceLock::new();

fn report(e: Event) {
    if let Some(f) = HOOK.get() {
        f(e);
    }
}

fn address<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::report(crate::Event::Yield);
    }
    pub fn sleep(_: ::std::time::Duration) {
        crate::report(crate::Event::Yield);
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::report(crate::Event::Yield);
    }
}

pub mod sync {
    use super::{address, report, Event};
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    pub use ::std::sync::*;
    use ::std::time::Duration;

    #[repr(transparent)]
    pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);

    macro_rules! guard {
        ($name:ident, $inner:ident) => {
            #[must_use]
            pub struct $name<'a, T: ?Sized> {
                guard: Option<::std::sync::$inner<'a, T>>,
                lock: usize,
            }
            impl<T: ?Sized> Deref for $name<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    self.guard.as_ref().unwrap()
                }
            }
            impl<T: ?Sized> Drop for $name<'_, T> {
                fn drop(&mut self) {
                    self.guard.take();
                    report(Event::Release(self.lock));
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    macro_rules! mutable {
        ($($name:ident)*) => {$(
            impl<T: ?Sized> DerefMut for $name<'_, T> {
                fn deref_mut(&mut self) -> &mut T {
                    self.guard.as_mut().unwrap()
                }
            }
        )*};
    }
    guard!(MutexGuard, MutexGuard);
    guard!(RwLockReadGuard, RwLockReadGuard);
    guard!(RwLockWriteGuard, RwLockWriteGuard);
    mutable!(MutexGuard RwLockWriteGuard);

    fn locked<G, H>(r: LockResult<G>, wrap: impl Fn(G) -> H) -> LockResult<H> {
        match r {
            Ok(g) => Ok(wrap(g)),
            Err(e) => Err(PoisonError::new(wrap(e.into_inner()))),
        }
    }
    fn tried<G, H>(r: TryLockResult<G>, wrap: impl Fn(G) -> H) -> TryLockResult<H> {
        match r {
            Ok(g) => Ok(wrap(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(wrap(e.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }

    macro_rules! common {
        ($name:ident) => {
            impl<T> $name<T> {
                pub const fn new(value: T) -> Self {
                    $name(::std::sync::$name::new(value))
                }
                pub fn into_inner(self) -> LockResult<T> {
                    self.0.into_inner()
                }
            }
            impl<T: ?Sized> $name<T> {
                pub fn is_poisoned(&self) -> bool {
                    report(Event::Step);
                    self.0.is_poisoned()
                }
                pub fn clear_poison(&self) {
                    report(Event::Step);
                    self.0.clear_poison();
                }
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    self.0.get_mut()
                }
            }
            impl<T: Default> Default for $name<T> {
                fn default() -> Self {
                    Self::new(T::default())
                }
            }
            impl<T> From<T> for $name<T> {
                fn from(t: T) -> Self {
                    Self::new(t)
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    common!(Mutex);
    common!(RwLock);

    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            let lock = address(self);
            report(Event::Acquire(lock, false));
            locked(self.0.lock(), |g| MutexGuard { guard: Some(g), lock })
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            report(Event::Step);
            let lock = address(self);
            tried(self.0.try_lock(), |g| {
                report(Event::Taken(lock, false));
                MutexGuard { guard: Some(g), lock }
            })
        }
    }

    #[repr(transparent)]
    pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let lock = address(self);
            report(Event::Acquire(lock, true));
            locked(self.0.read(), |g| RwLockReadGuard { guard: Some(g), lock })
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let lock = address(self);
            report(Event::Acquire(lock, false));
            locked(self.0.write(), |g| RwLockWriteGuard { guard: Some(g), lock })
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            report(Event::Step);
            let lock = address(self);
            tried(self.0.try_read(), |g| {
                report(Event::Taken(lock, true));
                RwLockReadGuard { guard: Some(g), lock }
            })
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            report(Event::Step);
            let lock = address(self);
            tried(self.0.try_write(), |g| {
                report(Event::Taken(lock, false));
                RwLockWriteGuard { guard: Some(g), lock }
            })
        }
    }

    /// Without `HOOK` every wait ends at once, as the real one is allowed to ("spuriously").
    #[derive(Debug, Default)]
    pub struct Condvar(u8);
    #[derive(Debug, PartialEq, Eq, Copy, Clone)]
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(0)
        }
        fn pause<'a, T>(mut guard: MutexGuard<'a, T>, how: Event) -> LockResult<MutexGuard<'a, T>> {
            let inner = guard.guard.take();
            let lock = guard.lock;
            // SAFETY: the number is the address of the mutex, which is borrowed for 'a.
            let mutex: &'a Mutex<T> = unsafe { &*(lock as *const Mutex<T>) };
            // Giving back the lock and starting to wait is one step: the scheduler does not see the former.
            drop(inner);
            ::std::mem::forget(guard);
            report(Event::Unlocked(lock));
            report(how);
            mutex.lock()
        }
        pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            Condvar::pause(guard, Event::Wait(address(self)))
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>> {
            while condition(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        /// The time is up at once, after others had their turn.
        pub fn wait_timeout<'a, T>(&self, guard: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            match Condvar::pause(guard, Event::Yield) {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
            }
        }
        pub fn notify_one(&self) {
            report(Event::Notify(address(self), false));
        }
        pub fn notify_all(&self) {
            report(Event::Notify(address(self), true));
        }
    }

    pub mod atomic {
        use super::super::{report, Event};
        use ::std::fmt;
        pub use ::std::sync::atomic::*;

        macro_rules! atomic {
            ($name:ident $(<$g:ident>)?, $t:ty) => {
                pub struct $name $(<$g>)? (::std::sync::atomic::$name $(<$g>)?);
                impl $(<$g>)? $name $(<$g>)? {
                    pub const fn new(v: $t) -> Self {
                        $name(::std::sync::atomic::$name::new(v))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        report(Event::Step);
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        report(Event::Step);
                        self.0.store(v, o);
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        report(Event::Step);
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        report(Event::Step);
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        report(Event::Step);
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut now = self.load(f);
                        while let Some(next) = g(now) {
                            match self.compare_exchange_weak(now, next, s, f) {
                                Ok(v) => return Ok(v),
                                Err(v) => now = v,
                            }
                        }
                        Err(now)
                    }
                }
                impl $(<$g>)? fmt::Debug for $name $(<$g>)? {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl $(<$g>)? From<$t> for $name $(<$g>)? {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! arithmetic {
            ($name:ident, $t:ty, $($op:ident)*) => {
                impl $name {$(
                    pub fn $op(&self, v: $t, o: Ordering) -> $t {
                        report(Event::Step);
                        self.0.$op(v, o)
                    }
                )*}
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(<$t>::default())
                    }
                }
            };
        }
        atomic!(AtomicPtr<T>, *mut T);
        impl<T> Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(::std::ptr::null_mut())
            }
        }
        atomic!(AtomicBool, bool);
        arithmetic!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);
        macro_rules! integers {
            ($($name:ident $t:ty,)*) => {$(
                atomic!($name, $t);
                arithmetic!($name, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
            )*};
        }
        integers!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
            AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize,);

        pub fn fence(o: Ordering) {
            report(Event::Step);
            ::std::sync::atomic::fence(o);
        }
    }
}
