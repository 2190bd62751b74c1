pub use ::std::sync::*;

pub mod atomic;
pub mod mpsc;

use crate::proto::*;
use crate::rt;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as rs;
use ::std::sync::atomic::AtomicBool as RBool;
use ::std::sync::atomic::AtomicUsize as RUsize;
use ::std::sync::atomic::Ordering::SeqCst;
use ::std::time::Duration;

// ---------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> {
    held: RBool,
    inner: rs::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    inner: Option<rs::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { held: RBool::new(false), inner: rs::Mutex::new(t) }
    }
}

impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.held as *const _ as usize
    }
    fn wrap<'a>(&'a self, r: rs::LockResult<rs::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        self.held.store(true, SeqCst);
        match r {
            Ok(g) => Ok(MutexGuard { lock: self, inner: Some(g) }),
            Err(p) => Err(PoisonError::new(MutexGuard { lock: self, inner: Some(p.into_inner()) })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if rt::on() {
            rt::point(K_LOCK, self.addr(), 0, &|| if self.held.load(SeqCst) { rt::NO } else { rt::YES });
        }
        let r = self.inner.lock();
        self.wrap(r)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if rt::on() {
            rt::point(K_TRYLOCK, self.addr(), 0, &|| if self.held.load(SeqCst) { rt::NOOP } else { rt::YES });
            if self.held.load(SeqCst) {
                return Err(TryLockError::WouldBlock);
            }
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(Ok(g)).ok().unwrap()),
            Err(rs::TryLockError::Poisoned(p)) => match self.wrap(Err(p)) {
                Err(p) => Err(TryLockError::Poisoned(p)),
                Ok(g) => Ok(g),
            },
            Err(rs::TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn into_inner(self) -> LockResult<T>
    where
        T: Sized,
    {
        self.inner.into_inner()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.inner, f)
    }
}
impl<T: ?Sized + serde::Serialize> serde::Serialize for Mutex<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.lock() {
            Ok(l) => l.serialize(s),
            Err(_) => Err(serde::ser::Error::custom("lock poison error while serializing")),
        }
    }
}

impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        if let Some(g) = self.inner.take() {
            if rt::on() {
                rt::simple(K_UNLOCK, self.lock.addr());
            }
            self.lock.held.store(false, SeqCst);
            drop(g);
        }
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}

// ---------------------------------------------------------------- Condvar

struct Waiter {
    tid: usize,
    notified: bool,
}

pub struct Condvar {
    inner: rs::Condvar,
    q: UnsafeCell<Vec<Waiter>>,
    id: RUsize,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { inner: rs::Condvar::new(), q: UnsafeCell::new(Vec::new()), id: RUsize::new(0) }
    }
    fn addr(&self) -> usize {
        &self.id as *const _ as usize
    }
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut Vec<Waiter> {
        unsafe { &mut *self.q.get() }
    }
    // Returns (guard, timed out).
    fn wait_ctl<'a, T>(&self, mut g: MutexGuard<'a, T>, timeout: bool) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.lock;
        let me = rt::tid();
        // Release and enqueue atomically.
        rt::simple(K_CVWAIT, self.addr());
        rt::also(K_UNLOCK, m.addr(), 0);
        self.q().push(Waiter { tid: me, notified: false });
        m.held.store(false, SeqCst);
        drop(g.inner.take());
        drop(g);
        let notified = || self.q().iter().any(|w| w.tid == me && w.notified);
        let kind = if timeout { K_CVTIMEOUT } else { K_LOCK };
        rt::point(kind, m.addr(), 0, &|| {
            if m.held.load(SeqCst) {
                rt::NO
            } else if notified() {
                rt::YES
            } else if timeout {
                rt::LOW
            } else {
                rt::NO
            }
        });
        let n = notified();
        rt::also(if timeout { K_OTHER } else { K_CVWAKE }, self.addr(), 0);
        self.q().retain(|w| w.tid != me);
        let r = m.inner.lock();
        (m.wrap(r), !n)
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if rt::on() {
            return self.wait_ctl(g, false).0;
        }
        let m = g.lock;
        let r = self.inner.wait(g.inner.take().unwrap());
        m.wrap(r)
    }
    pub fn wait_while<'a, T, F>(&self, mut g: MutexGuard<'a, T>, mut cond: F) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if rt::on() {
            let (r, to) = self.wait_ctl(g, true);
            return match r {
                Ok(g) => Ok((g, WaitTimeoutResult(to))),
                Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(to)))),
            };
        }
        let m = g.lock;
        match self.inner.wait_timeout(g.inner.take().unwrap(), d) {
            Ok((g, t)) => Ok((m.wrap(Ok(g)).ok().unwrap(), WaitTimeoutResult(t.timed_out()))),
            Err(p) => {
                let (g, t) = p.into_inner();
                let g = MutexGuard { lock: m, inner: Some(g) };
                Err(PoisonError::new((g, WaitTimeoutResult(t.timed_out()))))
            }
        }
    }
    #[allow(deprecated)]
    pub fn wait_timeout_ms<'a, T>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms as u64)) {
            Ok((g, t)) => Ok((g, !t.timed_out())),
            Err(p) => {
                let (g, t) = p.into_inner();
                Err(PoisonError::new((g, !t.timed_out())))
            }
        }
    }
    pub fn wait_timeout_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        loop {
            if !cond(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let (g2, t) = self.wait_timeout(g, d)?;
            g = g2;
            if t.timed_out() {
                let c = cond(&mut *g);
                return Ok((g, WaitTimeoutResult(c)));
            }
        }
    }
    pub fn notify_one(&self) {
        if rt::on() {
            rt::simple(K_CVNOTIFY, self.addr());
            if let Some(w) = self.q().iter_mut().find(|w| !w.notified) {
                w.notified = true;
            }
        } else {
            self.inner.notify_one()
        }
    }
    pub fn notify_all(&self) {
        if rt::on() {
            rt::simple(K_CVNOTIFY, self.addr());
            for w in self.q().iter_mut() {
                w.notified = true;
            }
        } else {
            self.inner.notify_all()
        }
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

// ---------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> {
    writer: RBool,
    readers: RUsize,
    inner: rs::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: Option<rs::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: Option<rs::RwLockWriteGuard<'a, T>>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { writer: RBool::new(false), readers: RUsize::new(0), inner: rs::RwLock::new(t) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
        &self.writer as *const _ as usize
    }
    fn can_read(&self) -> bool {
        !self.writer.load(SeqCst)
    }
    fn can_write(&self) -> bool {
        self.can_read() && self.readers.load(SeqCst) == 0
    }
    fn wr<'a>(&'a self, r: rs::LockResult<rs::RwLockReadGuard<'a, T>>) -> LockResult<RwLockReadGuard<'a, T>> {
        self.readers.fetch_add(1, SeqCst);
        match r {
            Ok(g) => Ok(RwLockReadGuard { lock: self, inner: Some(g) }),
            Err(p) => Err(PoisonError::new(RwLockReadGuard { lock: self, inner: Some(p.into_inner()) })),
        }
    }
    fn ww<'a>(&'a self, r: rs::LockResult<rs::RwLockWriteGuard<'a, T>>) -> LockResult<RwLockWriteGuard<'a, T>> {
        self.writer.store(true, SeqCst);
        match r {
            Ok(g) => Ok(RwLockWriteGuard { lock: self, inner: Some(g) }),
            Err(p) => Err(PoisonError::new(RwLockWriteGuard { lock: self, inner: Some(p.into_inner()) })),
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if rt::on() {
            rt::point(K_RLOCK, self.addr(), 0, &|| if self.can_read() { rt::YES } else { rt::NO });
        }
        let r = self.inner.read();
        self.wr(r)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if rt::on() {
            rt::point(K_LOCK, self.addr(), 0, &|| if self.can_write() { rt::YES } else { rt::NO });
        }
        let r = self.inner.write();
        self.ww(r)
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if rt::on() {
            rt::point(K_TRYLOCK, self.addr(), 0, &|| if self.can_read() { rt::YES } else { rt::NOOP });
            if !self.can_read() {
                return Err(TryLockError::WouldBlock);
            }
        }
        match self.inner.try_read() {
            Ok(g) => Ok(self.wr(Ok(g)).ok().unwrap()),
            Err(rs::TryLockError::Poisoned(p)) => self.wr(Err(p)).map_err(TryLockError::Poisoned),
            Err(rs::TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if rt::on() {
            rt::point(K_TRYLOCK, self.addr(), 0, &|| if self.can_write() { rt::YES } else { rt::NOOP });
            if !self.can_write() {
                return Err(TryLockError::WouldBlock);
            }
        }
        match self.inner.try_write() {
            Ok(g) => Ok(self.ww(Ok(g)).ok().unwrap()),
            Err(rs::TryLockError::Poisoned(p)) => self.ww(Err(p)).map_err(TryLockError::Poisoned),
            Err(rs::TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn into_inner(self) -> LockResult<T>
    where
        T: Sized,
    {
        self.inner.into_inner()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.inner, f)
    }
}
impl<T: ?Sized + serde::Serialize> serde::Serialize for RwLock<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.read() {
            Ok(l) => l.serialize(s),
            Err(_) => Err(serde::ser::Error::custom("lock poison error while serializing")),
        }
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        if let Some(g) = self.inner.take() {
            if rt::on() {
                rt::simple(K_RUNLOCK, self.lock.addr());
            }
            self.lock.readers.fetch_sub(1, SeqCst);
            drop(g);
        }
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        if let Some(g) = self.inner.take() {
            if rt::on() {
                rt::simple(K_UNLOCK, self.lock.addr());
            }
            self.lock.writer.store(false, SeqCst);
            drop(g);
        }
    }
}
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}

// ---------------------------------------------------------------- Barrier

pub struct Barrier {
    m: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl fmt::Debug for BarrierWaitResult {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BarrierWaitResult").field("is_leader", &self.0).finish()
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Barrier { .. }")
    }
}

// ---------------------------------------------------------------- Once, OnceLock, LazyLock

pub struct OnceLock<T> {
    m: Mutex<()>,
    set: self::atomic::AtomicBool,
    inner: rs::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { m: Mutex::new(()), set: self::atomic::AtomicBool::new(false), inner: rs::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        if self.set.load(SeqCst) {
            self.inner.get()
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let _g = self.m.lock();
        let r = self.inner.set(v);
        self.set.store(true, SeqCst);
        r
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(v) = self.get() {
            return v;
        }
        let _g = self.m.lock();
        if self.inner.get().is_none() {
            let v = f();
            let _ = self.inner.set(v);
            self.set.store(true, SeqCst);
        }
        self.inner.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        *self.set.get_mut() = false;
        self.inner.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.inner, f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = Self::new();
        let _ = c.set(v);
        c
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: rs::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: rs::Mutex::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = this.f.lock().unwrap().take().expect("LazyLock instance has previously been poisoned");
            f()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once {
    c: OnceLock<()>,
}
impl Once {
    pub const fn new() -> Once {
        Once { c: OnceLock::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.c.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.c.get().is_some()
    }
}
