pub use ::std::sync::atomic::*;

use crate::proto::*;
use crate::rt;
use ::std::fmt;
use ::std::sync::atomic as ra;

#[inline]
fn pt(kind: u8, addr: usize) {
    if rt::on() {
        rt::simple(kind, addr);
    }
}

pub fn fence(_: Ordering) {}
pub fn compiler_fence(_: Ordering) {}

::std::thread_local! {
    static SPURIOUS: ::std::cell::Cell<u32> = const { ::std::cell::Cell::new(0) };
}

/// Does this compare_exchange_weak fail for no reason?
#[inline]
fn spurious() -> bool {
    match rt::shm() {
        Some(s) if s.weak_fails > 0 => SPURIOUS.with(|c| {
            let n = c.get();
            c.set(if n < s.weak_fails { n + 1 } else { 0 });
            n < s.weak_fails
        }),
        _ => false,
    }
}

macro_rules! common {
    ($name:ident, $real:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $name {
            v: ra::$real,
        }
        impl $name {
            #[inline]
            pub const fn new(v: $t) -> Self {
                Self { v: ra::$real::new(v) }
            }
            #[inline]
            fn addr(&self) -> usize {
                self as *const _ as *const u8 as usize
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.v.as_ptr()
            }
            pub fn load(&self, _: Ordering) -> $t {
                pt(K_LOAD, self.addr());
                self.v.load(Ordering::SeqCst)
            }
            pub fn store(&self, v: $t, _: Ordering) {
                pt(K_WRITE, self.addr());
                self.v.store(v, Ordering::SeqCst)
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                pt(K_WRITE, self.addr());
                self.v.swap(v, Ordering::SeqCst)
            }
            pub fn compare_and_swap(&self, c: $t, n: $t, _: Ordering) -> $t {
                pt(K_WRITE, self.addr());
                match self.v.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst) {
                    Ok(x) => x,
                    Err(x) => x,
                }
            }
            pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                pt(K_WRITE, self.addr());
                self.v.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                if spurious() {
                    pt(K_LOAD, self.addr());
                    return Err(self.v.load(Ordering::SeqCst));
                }
                pt(K_WRITE, self.addr());
                self.v.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn fetch_update<F>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t>
            where
                F: FnMut($t) -> Option<$t>,
            {
                let mut prev = self.load(Ordering::SeqCst);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, Ordering::SeqCst, Ordering::SeqCst) {
                        Ok(x) => return Ok(x),
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn try_update<F>(&self, a: Ordering, b: Ordering, f: F) -> Result<$t, $t>
            where
                F: FnMut($t) -> Option<$t>,
            {
                self.fetch_update(a, b, f)
            }
            pub fn update<F>(&self, a: Ordering, b: Ordering, mut f: F) -> $t
            where
                F: FnMut($t) -> $t,
            {
                match self.fetch_update(a, b, |x| Some(f(x))) {
                    Ok(x) => x,
                    Err(x) => x,
                }
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.load(Ordering::SeqCst), f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl atomic_traits::Atomic for $name {
            type Type = $t;
            fn new(v: $t) -> Self {
                Self::new(v)
            }
            fn get_mut(&mut self) -> &mut $t {
                Self::get_mut(self)
            }
            fn into_inner(self) -> $t {
                Self::into_inner(self)
            }
            fn load(&self, o: Ordering) -> $t {
                Self::load(self, o)
            }
            fn store(&self, v: $t, o: Ordering) {
                Self::store(self, v, o)
            }
            fn swap(&self, v: $t, o: Ordering) -> $t {
                Self::swap(self, v, o)
            }
            fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                Self::compare_and_swap(self, c, n, o)
            }
            fn compare_exchange(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                Self::compare_exchange(self, c, n, a, b)
            }
            fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                Self::compare_exchange_weak(self, c, n, a, b)
            }
        }
    };
}

macro_rules! rmw {
    ($name:ident, $t:ty, $($f:ident),*) => {
        impl $name {
            $(pub fn $f(&self, v: $t, _: Ordering) -> $t {
                pt(K_WRITE, self.addr());
                self.v.$f(v, Ordering::SeqCst)
            })*
        }
    };
}

macro_rules! tr {
    ($name:ident, $t:ty, $($tr:ident $f:ident),*) => {
        $(impl atomic_traits::fetch::$tr for $name {
            type Type = $t;
            fn $f(&self, v: $t, o: Ordering) -> $t {
                Self::$f(self, v, o)
            }
        })*
    };
}

macro_rules! serde_impl {
    ($name:ident, $t:ty) => {
        impl serde::Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.load(Ordering::Relaxed).serialize(s)
            }
        }
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                <$t>::deserialize(d).map(Self::new)
            }
        }
    };
}

macro_rules! int {
    ($($name:ident $t:ty),*) => { $(
        common!($name, $name, $t);
        rmw!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
        tr!($name, $t, And fetch_and, Nand fetch_nand, Or fetch_or, Xor fetch_xor, Add fetch_add, Sub fetch_sub,
            Max fetch_max, Min fetch_min);
        impl atomic_traits::Bitwise for $name {}
        impl atomic_traits::NumOps for $name {}
        impl atomic_traits::fetch::Update for $name {
            type Type = $t;
            fn fetch_update<F>(&self, a: Ordering, b: Ordering, f: F) -> Result<$t, $t>
            where
                F: FnMut($t) -> Option<$t>,
            {
                Self::fetch_update(self, a, b, f)
            }
        }
        serde_impl!($name, $t);
        impl Default for $name {
            fn default() -> Self {
                Self::new(0)
            }
        }
    )* };
}

int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
     AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

common!(AtomicBool, AtomicBool, bool);
rmw!(AtomicBool, bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
tr!(AtomicBool, bool, And fetch_and, Nand fetch_nand, Or fetch_or, Xor fetch_xor);
impl atomic_traits::Bitwise for AtomicBool {}
serde_impl!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
