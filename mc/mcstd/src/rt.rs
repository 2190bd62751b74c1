//! Controlled scheduler: exactly one registered thread runs at a time; before every
//! synchronization operation the running thread publishes the operation it is about to perform
//! and the scheduler decides (replaying a prefix, then by a fixed default policy) who goes next.

use crate::proto::*;
use ::std::cell::{Cell, UnsafeCell};
use ::std::collections::HashMap;
use ::std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

pub const NO: u8 = 0; // not enabled
pub const YES: u8 = 1; // enabled
pub const LOW: u8 = 2; // enabled, but only by letting time pass (timeout, sleep)
pub const NOOP: u8 = 3; // enabled, will have no effect (failing try_lock ...)
pub const LAST: u8 = 4; // process exit

#[derive(Clone, Copy)]
struct Pend {
    kind: u8,
    obj: u32,
    aux: u32,
    ready: *const (dyn Fn() -> u8),
}

struct Th {
    used: bool,
    finished: bool,
    pend: Option<Pend>,
    go: AtomicU32,
    reads: [(u32, u8); 16],
    nreads: usize,
    token: bool,
}

const TH0: Th = Th {
    used: false,
    finished: false,
    pend: None,
    go: AtomicU32::new(0),
    reads: [(0, 0); 16],
    nreads: 0,
    token: false,
};

pub struct Rt {
    shm: *mut Shm,
    th: [Th; MAX_TH],
    nth: usize,
    cur: usize,
    run_len: u32,
    low_run: u32,
    objs: Option<HashMap<usize, u32, BuildH>>,
    next_obj: u32,
    exiting: bool,
    exit_code: i32,
    drain: u32,
}

#[derive(Clone, Copy, Default)]
struct BuildH;
struct H(u64);
impl ::std::hash::BuildHasher for BuildH {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0)
    }
}
impl ::std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_usize(&mut self, v: usize) {
        let mut z = (v as u64).wrapping_mul(0x9E3779B97F4A7C15);
        z ^= z >> 29;
        self.0 = z.wrapping_mul(0xBF58476D1CE4E5B9);
    }
}

struct Global(UnsafeCell<Rt>);
unsafe impl Sync for Global {}

static G: Global = Global(UnsafeCell::new(Rt {
    shm: 0 as *mut Shm,
    th: [TH0; MAX_TH],
    nth: 0,
    cur: 0,
    run_len: 0,
    low_run: 0,
    objs: None,
    next_obj: 1,
    exiting: false,
    exit_code: 0,
    drain: 0,
}));

static ACTIVE: AtomicBool = AtomicBool::new(false);
static FAULTS_ON: AtomicBool = AtomicBool::new(false);

thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[allow(clippy::mut_from_ref)]
fn rt() -> &'static mut Rt {
    unsafe { &mut *G.0.get() }
}

pub fn shm() -> Option<&'static mut Shm> {
    let p = rt().shm;
    if p.is_null() || !FAULTS_ON.load(SeqCst) {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

/// Is the calling thread one the scheduler controls?
#[inline]
pub fn on() -> bool {
    ACTIVE.load(::std::sync::atomic::Ordering::Relaxed)
        && TID.try_with(|t| t.get()).unwrap_or(usize::MAX) != usize::MAX
}

pub fn tid() -> usize {
    TID.with(|t| t.get())
}

fn futex_wait(a: &AtomicU32) {
    while a.load(SeqCst) == 0 {
        unsafe {
            crate::sys::raw(libc::SYS_futex, [a as *const _ as usize, 128, 0, 0, 0, 0]);
        }
    }
    a.store(0, SeqCst);
}
fn futex_wake(a: &AtomicU32) {
    a.store(1, SeqCst);
    unsafe {
        crate::sys::raw(libc::SYS_futex, [a as *const _ as usize, 129, 1, 0, 0, 0]);
    }
}

pub fn die(status: u32, code: i32, msg: &str) -> ! {
    let r = rt();
    unsafe {
        let s = &mut *r.shm;
        if s.status == ST_NONE {
            s.status = status;
        }
        let b = msg.as_bytes();
        let n = b.len().min(s.msg.len() - 1);
        s.msg[..n].copy_from_slice(&b[..n]);
        s.msg[n] = 0;
        final_pend();
        libc::_exit(code)
    }
}

fn final_pend() {
    let r = rt();
    let s = unsafe { &mut *r.shm };
    let mut n = 0;
    for i in 0..r.nth {
        if r.th[i].finished {
            continue;
        }
        if let Some(p) = r.th[i].pend {
            let code = unsafe { (*p.ready)() };
            s.pend[n] = PendRec { tid: i as u8, kind: p.kind, code, obj: p.obj, aux: p.aux };
            n += 1;
        }
    }
    s.npend = n as u32;
    s.nthreads = r.nth as u32;
}

pub fn obj_id(addr: usize) -> u32 {
    let r = rt();
    let next = &mut r.next_obj;
    *r.objs.get_or_insert_with(|| HashMap::with_hasher(BuildH)).entry(addr).or_insert_with(|| {
        let v = *next;
        *next += 1;
        v
    })
}

/// Forget the identity of an object (it is going away).
pub fn obj_forget(addr: usize) {
    if on() {
        if let Some(m) = rt().objs.as_mut() {
            m.remove(&addr);
        }
    }
}

fn readlike(kind: u8, code: u8) -> bool {
    kind == K_LOAD || code == NOOP || code == LOW
}

/// Would this read-like operation repeat what the thread already saw, with nothing it looked at
/// having changed since?
fn spins(t: &Th, p: &Pend, c: u8) -> bool {
    let limit = if c == LOW || c == NOOP { 1 } else { 8 };
    t.reads[..t.nreads].iter().any(|(o, n)| *o == p.obj && *n >= limit)
}

/// `t` changed object `obj`.
fn changed(t: usize, obj: u32) {
    let r = rt();
    let n = r.nth;
    for (i, th) in r.th[..n].iter_mut().enumerate() {
        if i == t || th.reads[..th.nreads].iter().any(|(o, _)| *o == obj) {
            th.nreads = 0;
        }
    }
}

fn choose() -> usize {
    let r = rt();
    let s = unsafe { &mut *r.shm };
    let mut enabled: u32 = 0;
    let mut low: u32 = 0;
    let mut last: u32 = 0;
    let mut stut: u32 = 0;
    let mut codes = [0u8; MAX_TH];
    for i in 0..r.nth {
        if r.th[i].finished {
            continue;
        }
        if let Some(p) = r.th[i].pend {
            let c = unsafe { (*p.ready)() };
            codes[i] = c;
            if c == NO {
                continue;
            }
            enabled |= 1 << i;
            if c == LAST {
                last |= 1 << i;
            } else {
                if c == LOW {
                    low |= 1 << i;
                }
                if readlike(p.kind, c) && spins(&r.th[i], &p, c) {
                    low |= 1 << i;
                    stut |= 1 << i;
                }
            }
        }
    }
    if enabled == 0 {
        if r.exiting {
            finish();
        }
        die(ST_DEADLOCK, 99, "no thread can make a step");
    }
    let step = s.nsteps as usize;
    let normal = enabled & !low & !last;
    let cyc = |from: usize, mask: u32| -> Option<usize> {
        if s.policy == 1 {
            for k in 1..=r.nth {
                let i = (from + r.nth * 2 - k) % r.nth;
                if mask >> i & 1 == 1 {
                    return Some(i);
                }
            }
            return None;
        }
        for k in 1..=r.nth {
            let i = (from + k) % r.nth;
            if mask >> i & 1 == 1 {
                return Some(i);
            }
        }
        None
    };
    let next;
    if step < s.prefix_len as usize {
        next = s.prefix[step] as usize;
        if enabled >> next & 1 == 0 {
            die(ST_DIVERGED, 98, "scheduled thread is not enabled");
        }
    } else if normal != 0 {
        if normal >> r.cur & 1 == 1 && r.run_len < 3000 {
            next = r.cur;
        } else {
            next = cyc(r.cur, normal & !(1 << r.cur)).or(cyc(r.cur, normal)).unwrap();
        }
    } else if last != 0 {
        next = last.trailing_zeros() as usize;
    } else {
        next = cyc(r.cur, low & !stut).or_else(|| cyc(r.cur, low)).unwrap();
    }
    let p = r.th[next].pend.take().unwrap();
    let code = codes[next];
    if next == r.cur {
        r.run_len += 1;
    } else {
        r.run_len = 0;
    }
    r.cur = next;
    // progress accounting
    if readlike(p.kind, code) {
        let t = &mut r.th[next];
        match t.reads[..t.nreads].iter_mut().find(|(o, _)| *o == p.obj) {
            Some((_, c)) => *c = c.saturating_add(1),
            None => {
                if t.nreads == 16 {
                    t.reads.copy_within(1..16, 0);
                    t.nreads = 15;
                }
                t.reads[t.nreads] = (p.obj, 1);
                t.nreads += 1;
            }
        }
        if low >> next & 1 == 1 && normal == 0 {
            r.low_run += 1;
            if r.low_run > 20_000 {
                push(s, next, &p, code, enabled, low | last, stut, false);
                die(ST_LIVELOCK, 97, "threads only poll; no progress is possible");
            }
        }
    } else {
        changed(next, p.obj);
        if p.kind != K_YIELD {
            r.low_run = 0;
        } else {
            r.low_run += 1;
            if r.low_run > 20_000 {
                die(ST_LIVELOCK, 97, "threads only yield; no progress is possible");
            }
        }
    }
    push(s, next, &p, code, enabled, low | last, stut, false);
    s.nsteps += 1;
    if s.nsteps >= s.max_steps || s.nrecs as usize >= MAX_STEPS - 4 {
        if r.exiting {
            finish();
        }
        die(ST_HORIZON, 96, "step horizon reached");
    }
    if r.exiting {
        r.drain += 1;
        if r.drain > 20_000 {
            finish();
        }
    }
    next
}

fn push(s: &mut Shm, tid: usize, p: &Pend, code: u8, enabled: u32, low: u32, stut: u32, cont: bool) {
    let n = s.nrecs as usize;
    s.trace[n] =
        Rec { tid: tid as u8, kind: p.kind, cont: cont as u8, code, obj: p.obj, enabled, low, stut, aux: p.aux };
    s.nrecs = n as u32 + 1;
}

/// A scheduling point before an operation on `addr`.
pub fn point(kind: u8, addr: usize, aux: u32, ready: &dyn Fn() -> u8) {
    let me = tid();
    let r = rt();
    let obj = obj_id(addr);
    let ready: *const (dyn Fn() -> u8 + 'static) =
        unsafe { ::std::mem::transmute::<&dyn Fn() -> u8, &'static (dyn Fn() -> u8 + 'static)>(ready) };
    r.th[me].pend = Some(Pend { kind, obj, aux, ready });
    let next = choose();
    if next != me {
        futex_wake(&r.th[next].go);
        futex_wait(&r.th[me].go);
    }
}

/// A further object touched in the same step.
pub fn also(kind: u8, addr: usize, aux: u32) {
    let obj = obj_id(addr);
    let r = rt();
    let s = unsafe { &mut *r.shm };
    let dummy: &'static dyn Fn() -> u8 = &|| YES;
    push(s, tid(), &Pend { kind, obj, aux, ready: dummy }, YES, 0, 0, 0, true);
    changed(tid(), obj);
}

pub fn simple(kind: u8, addr: usize) {
    point(kind, addr, 0, &|| YES);
}

pub fn set_aux(v: u32) {
    // annotate the step being executed (e.g. message index)
    let r = rt();
    let s = unsafe { &mut *r.shm };
    if s.nrecs > 0 {
        s.trace[s.nrecs as usize - 1].aux = v;
    }
}

pub fn finished(t: usize) -> bool {
    rt().th[t].finished
}

pub fn thread_obj(t: usize) -> usize {
    &rt().th[t].go as *const _ as usize
}

pub fn take_token(t: usize) -> bool {
    ::std::mem::replace(&mut rt().th[t].token, false)
}
pub fn has_token(t: usize) -> bool {
    rt().th[t].token
}
pub fn give_token(t: usize) {
    rt().th[t].token = true;
}

pub fn new_thread() -> usize {
    let r = rt();
    if r.nth >= MAX_TH {
        die(ST_INTERNAL, 95, "too many threads");
    }
    let t = r.nth;
    r.nth += 1;
    r.th[t].used = true;
    t
}

pub fn unnew_thread(t: usize) {
    rt().th[t].finished = true;
}

/// Called by a new OS thread: announce ourselves to the spawner and wait to be scheduled.
pub fn child_start(t: usize, hs: &AtomicU32) {
    TID.with(|c| c.set(t));
    let r = rt();
    let ready: &'static dyn Fn() -> u8 = &|| YES;
    let obj = obj_id(thread_obj(t));
    r.th[t].pend = Some(Pend { kind: K_START, obj, aux: 0, ready });
    futex_wake(hs);
    futex_wait(&r.th[t].go);
}

pub fn wait_handshake(hs: &AtomicU32) {
    futex_wait(hs);
}

/// Last act of a controlled thread.
pub fn child_exit(t: usize) {
    simple(K_EXIT, thread_obj(t));
    let r = rt();
    r.th[t].finished = true;
    TID.with(|c| c.set(usize::MAX));
    let next = choose();
    futex_wake(&r.th[next].go);
}

fn finish() -> ! {
    let r = rt();
    final_pend();
    let code = r.exit_code;
    unsafe { libc::_exit(code) }
}

extern "C" fn at_exit(code: libc::c_int, _: *mut libc::c_void) {
    let r = rt();
    if r.shm.is_null() {
        return;
    }
    if on() {
        // what was printed before the end is part of the outcome, and so is who ends it
        point(K_OTHER, 4, 0, &|| YES);
    }
    let s = unsafe { &mut *r.shm };
    if s.status == ST_NONE {
        s.status = ST_EXITED;
        s.exit_code = code;
        s.stdout_len = unsafe { libc::lseek(1, 0, libc::SEEK_CUR) } as u64;
    }
    if !on() {
        return;
    }
    // Nothing another thread does from here on is part of the outcome, but their remaining steps
    // are executed so that the explorer sees the conflicts they are involved in.
    r.exiting = true;
    r.exit_code = code;
    point(K_PROCEXIT, 1, 0, &|| LAST);
    finish();
}

/// The calling thread is about to print.
pub fn output() {
    if on() {
        point(K_OTHER, 4, 0, &|| YES);
    }
}

pub unsafe fn begin(shm: *mut Shm) {
    let r = rt();
    r.shm = shm;
    FAULTS_ON.store(true, SeqCst);
    extern "C" {
        fn on_exit(f: extern "C" fn(libc::c_int, *mut libc::c_void), arg: *mut libc::c_void) -> libc::c_int;
    }
    on_exit(at_exit, ::std::ptr::null_mut());
    let skip = crate::sys::shift_addresses((*shm).seed);
    if (*shm).controlled != 0 && !cfg!(feature = "passthrough") {
        crate::sys::bump_on(skip);
        r.nth = 1;
        r.th[0].used = true;
        TID.with(|c| c.set(0));
        ACTIVE.store(true, SeqCst);
    }
}

pub fn cap(requested: usize) -> usize {
    if let Some(s) = shm() {
        if s.cap_override > 0 && requested >= 10_000 {
            return s.cap_override as usize;
        }
    }
    requested
}
