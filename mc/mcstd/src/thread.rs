pub use ::std::thread::*;

use crate::proto::*;
use crate::rt;
use ::std::io;
use ::std::marker::PhantomData;
use ::std::num::NonZeroUsize;
use ::std::sync::atomic::AtomicU32;
use ::std::sync::Arc;
use ::std::time::Duration;

#[derive(Clone, Debug)]
pub struct Thread {
    inner: ::std::thread::Thread,
    tid: usize,
}

impl Thread {
    pub fn id(&self) -> ThreadId {
        self.inner.id()
    }
    pub fn name(&self) -> Option<&str> {
        self.inner.name()
    }
    pub fn unpark(&self) {
        if rt::on() && self.tid != usize::MAX {
            rt::simple(K_OTHER, rt::thread_obj(self.tid) + 1);
            rt::give_token(self.tid);
        } else {
            self.inner.unpark()
        }
    }
}

pub fn current() -> Thread {
    Thread { inner: ::std::thread::current(), tid: if rt::on() { rt::tid() } else { usize::MAX } }
}

pub fn park() {
    if rt::on() {
        let t = rt::tid();
        rt::point(K_OTHER, rt::thread_obj(t) + 1, 0, &|| if rt::has_token(t) { rt::YES } else { rt::NO });
        rt::take_token(t);
    } else {
        ::std::thread::park()
    }
}

pub fn park_timeout(d: Duration) {
    if rt::on() {
        let t = rt::tid();
        rt::point(K_OTHER, rt::thread_obj(t) + 1, 0, &|| if rt::has_token(t) { rt::YES } else { rt::LOW });
        rt::take_token(t);
    } else {
        ::std::thread::park_timeout(d)
    }
}

pub fn sleep(d: Duration) {
    if rt::on() {
        rt::point(K_YIELD, 2, 0, &|| rt::LOW);
    } else {
        ::std::thread::sleep(d)
    }
}

#[allow(deprecated)]
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}

pub fn yield_now() {
    if rt::on() {
        rt::point(K_YIELD, 2, 0, &|| rt::LOW);
    } else {
        ::std::thread::yield_now()
    }
}

struct ExitGuard(usize);
impl Drop for ExitGuard {
    fn drop(&mut self) {
        rt::child_exit(self.0);
    }
}

fn body<F: FnOnce() -> T, T>(tid: usize, hs: Arc<AtomicU32>, f: F) -> T {
    if tid == usize::MAX {
        return f();
    }
    rt::child_start(tid, &hs);
    drop(hs);
    let _g = ExitGuard(tid);
    f()
}

fn prepare() -> (usize, Arc<AtomicU32>) {
    let hs = Arc::new(AtomicU32::new(0));
    if rt::on() {
        let t = rt::new_thread();
        rt::simple(K_SPAWN, rt::thread_obj(t));
        (t, hs)
    } else {
        (usize::MAX, hs)
    }
}

pub struct JoinHandle<T> {
    inner: ::std::thread::JoinHandle<T>,
    thread: Thread,
}

impl<T> JoinHandle<T> {
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn join(self) -> Result<T> {
        let t = self.thread.tid;
        if rt::on() && t != usize::MAX {
            rt::point(K_JOIN, rt::thread_obj(t), 0, &|| if rt::finished(t) { rt::YES } else { rt::NO });
        }
        self.inner.join()
    }
    pub fn is_finished(&self) -> bool {
        let t = self.thread.tid;
        if rt::on() && t != usize::MAX {
            rt::point(K_LOAD, rt::thread_obj(t), 0, &|| rt::YES);
            return rt::finished(t);
        }
        self.inner.is_finished()
    }
}

impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

#[derive(Debug)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}

impl Builder {
    pub fn new() -> Builder {
        Builder { name: None, stack: None }
    }
    pub fn name(mut self, name: String) -> Builder {
        self.name = Some(name);
        self
    }
    pub fn stack_size(mut self, size: usize) -> Builder {
        self.stack = Some(size);
        self
    }
    fn real(self) -> ::std::thread::Builder {
        let mut b = ::std::thread::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        if let Some(s) = self.stack {
            b = b.stack_size(s);
        }
        b
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let (tid, hs) = prepare();
        let hs2 = hs.clone();
        match self.real().spawn(move || body(tid, hs2, f)) {
            Ok(inner) => {
                if tid != usize::MAX {
                    rt::wait_handshake(&hs);
                }
                let thread = Thread { inner: inner.thread().clone(), tid };
                Ok(JoinHandle { inner, thread })
            }
            Err(e) => {
                if tid != usize::MAX {
                    rt::unnew_thread(tid);
                }
                Err(e)
            }
        }
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        scope.spawn_with(self, f)
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub struct Scope<'scope, 'env: 'scope> {
    inner: &'scope ::std::thread::Scope<'scope, 'env>,
    tids: ::std::sync::Mutex<Vec<usize>>,
    _p: PhantomData<&'scope ()>,
}

pub struct ScopedJoinHandle<'scope, T> {
    inner: ::std::thread::ScopedJoinHandle<'scope, T>,
    thread: Thread,
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn join(self) -> Result<T> {
        let t = self.thread.tid;
        if rt::on() && t != usize::MAX {
            rt::point(K_JOIN, rt::thread_obj(t), 0, &|| if rt::finished(t) { rt::YES } else { rt::NO });
        }
        self.inner.join()
    }
    pub fn is_finished(&self) -> bool {
        let t = self.thread.tid;
        if rt::on() && t != usize::MAX {
            rt::point(K_LOAD, rt::thread_obj(t), 0, &|| rt::YES);
            return rt::finished(t);
        }
        self.inner.is_finished()
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    fn spawn_with<F, T>(&'scope self, b: Builder, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let (tid, hs) = prepare();
        let hs2 = hs.clone();
        let inner = b.real().spawn_scoped(self.inner, move || body(tid, hs2, f))?;
        if tid != usize::MAX {
            rt::wait_handshake(&hs);
            self.tids.lock().unwrap().push(tid);
        }
        let thread = Thread { inner: inner.thread().clone(), tid };
        Ok(ScopedJoinHandle { inner, thread })
    }
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.spawn_with(Builder::new(), f).expect("failed to spawn thread")
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    ::std::thread::scope(|s| {
        // The wrapper must live as long as 'scope; it is tiny and leaked.
        let sc: &Scope = Box::leak(Box::new(Scope {
            inner: unsafe { ::std::mem::transmute(s) },
            tids: ::std::sync::Mutex::new(Vec::new()),
            _p: PhantomData,
        }));
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(sc)));
        if rt::on() {
            let tids = sc.tids.lock().unwrap().clone();
            for t in tids {
                rt::point(K_JOIN, rt::thread_obj(t), 0, &|| if rt::finished(t) { rt::YES } else { rt::NO });
            }
        }
        match r {
            Ok(v) => v,
            Err(p) => ::std::panic::resume_unwind(p),
        }
    })
}

pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    ::std::thread::available_parallelism()
}
