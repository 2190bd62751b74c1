//! Interposed libc entry points (fault injection, randomness) and the fork server that runs
//! before `main`.

use crate::proto::*;
use crate::rt;
use libc::{c_char, c_int, c_long, c_void, mode_t, size_t, ssize_t};

#[inline]
pub unsafe fn raw(nr: c_long, a: [usize; 6]) -> isize {
    let r: isize;
    ::std::arch::asm!("syscall", inlateout("rax") nr as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

const NFD: usize = 1024;
static mut FDS: [u8; NFD] = [0; NFD]; // 0: untracked, else track index + 1

unsafe fn track_of_path(p: *const c_char) -> Option<usize> {
    let s = rt::shm()?;
    let b = ::std::ffi::CStr::from_ptr(p).to_bytes();
    for i in 0..s.ntracked as usize {
        let t = &s.tracked[i];
        let n = t.iter().position(|c| *c == 0).unwrap_or(t.len());
        let t = &t[..n];
        if t.first() == Some(&b'*') && b.ends_with(&t[1..]) {
            return Some(i);
        }
        if b.ends_with(t) && (b.len() == n || b[b.len() - n - 1] == b'/') {
            return Some(i);
        }
    }
    None
}

unsafe fn fault(class: u8, track: usize) -> i32 {
    let s = match rt::shm() {
        Some(s) => s,
        None => return 0,
    };
    let n = s.io_counts[track][class as usize];
    s.io_counts[track][class as usize] += 1;
    for f in &s.faults[..s.nfaults as usize] {
        if f.class == class && f.track as usize == track && (f.nth == n || (f.sticky != 0 && n >= f.nth)) {
            s.faults_hit += 1;
            return f.action;
        }
    }
    0
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(t) = track_of_path(path) {
        let a = fault(F_OPEN, t);
        if a > 0 && a < 4096 {
            *libc::__errno_location() = a;
            return -1;
        }
        let fd = ret(raw(libc::SYS_openat, [dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0]));
        if fd >= 0 && (fd as usize) < NFD {
            FDS[fd as usize] = t as u8 + 1;
        }
        return fd as c_int;
    }
    ret(raw(libc::SYS_openat, [dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
/// Where the standard library parks a second thread that wants to exit the process.
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    if rt::on() {
        rt::output();
        rt::point(K_OTHER, 3, 0, &|| rt::NO);
    }
    ret(raw(libc::SYS_pause, [0; 6])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let r = ret(raw(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0])) as c_int;
    if fd >= 0 && (fd as usize) < NFD {
        FDS[fd as usize] = 0;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if fd >= 0 && (fd as usize) < NFD && FDS[fd as usize] != 0 {
        let t = FDS[fd as usize] as usize - 1;
        let a = fault(F_READ, t);
        if a == A_EOF {
            return 0;
        }
        if a > 0 && a < 4096 {
            *libc::__errno_location() = a;
            return -1;
        }
        if a == A_SHORT {
            n = n.min(1);
        }
        if let Some(s) = rt::shm() {
            if s.read_chunk > 0 {
                n = n.min(s.read_chunk as usize);
            }
        }
        let r = ret(raw(libc::SYS_read, [fd as usize, buf as usize, n, 0, 0, 0]));
        if a == A_FLIP && r > 0 {
            *(buf as *mut u8) ^= 0xff;
        }
        return r;
    }
    ret(raw(libc::SYS_read, [fd as usize, buf as usize, n, 0, 0, 0]))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let mut n = n;
    let t = if fd == 1 {
        Some(TRACK_STDOUT)
    } else if fd >= 0 && (fd as usize) < NFD && FDS[fd as usize] != 0 {
        Some(FDS[fd as usize] as usize - 1)
    } else {
        None
    };
    if let Some(t) = t {
        let a = fault(F_WRITE, t);
        if a > 0 && a < 4096 {
            *libc::__errno_location() = a;
            return -1;
        }
        if a == A_SHORT {
            n = if n > 1 { n / 2 } else { n };
        }
    }
    ret(raw(libc::SYS_write, [fd as usize, buf as usize, n, 0, 0, 0]))
}

type OpendirFn = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
type ReaddirFn = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
type ClosedirFn = unsafe extern "C" fn(*mut libc::DIR) -> c_int;
const NDIR: usize = 64;
static mut DIRS: [(usize, usize); NDIR] = [(0, 0); NDIR]; // (DIR*, track + 1)

unsafe fn next_sym(name: &::std::ffi::CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let track = track_of_path(path);
    if let Some(t) = track {
        let a = fault(F_OPEN, t);
        if a > 0 && a < 4096 {
            *libc::__errno_location() = a;
            return ::std::ptr::null_mut();
        }
    }
    let f: OpendirFn = ::std::mem::transmute(next_sym(c"opendir"));
    let d = f(path);
    if let (Some(t), false) = (track, d.is_null()) {
        for i in 0..NDIR {
            if DIRS[i].0 == 0 {
                DIRS[i] = (d as usize, t + 1);
                break;
            }
        }
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    for i in 0..NDIR {
        if DIRS[i].0 == d as usize && DIRS[i].1 != 0 {
            let a = fault(F_READ, DIRS[i].1 - 1);
            if a > 0 && a < 4096 {
                *libc::__errno_location() = a;
                return ::std::ptr::null_mut();
            }
        }
    }
    let f: ReaddirFn = ::std::mem::transmute(next_sym(c"readdir64"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    for i in 0..NDIR {
        if DIRS[i].0 == d as usize {
            DIRS[i] = (0, 0);
        }
    }
    let f: ClosedirFn = ::std::mem::transmute(next_sym(c"closedir"));
    f(d)
}

static mut PRNG: u64 = 0;
unsafe fn fill(buf: *mut u8, n: usize) {
    for i in 0..n {
        PRNG = PRNG.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = PRNG;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *buf.add(i) = (z ^ (z >> 31)) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    if rt::shm().is_some() {
        fill(buf as *mut u8, n);
        return n as ssize_t;
    }
    ret(raw(libc::SYS_getrandom, [buf as usize, n, flags as usize, 0, 0, 0]))
}
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if nr == libc::SYS_getrandom && rt::shm().is_some() {
        fill(a as *mut u8, b);
        return b as c_long;
    }
    ret(raw(nr, [a, b, c, d, e, f])) as c_long
}

#[used]
#[link_section = ".init_array.00001"]
static CTOR: extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) = ctor;

unsafe fn env_num(name: &[u8]) -> Option<c_int> {
    let v = libc::getenv(name.as_ptr() as *const c_char);
    if v.is_null() {
        None
    } else {
        Some(libc::atoi(v))
    }
}

extern "C" fn ctor(argc: c_int, argv: *mut *mut c_char, _: *mut *mut c_char) {
    unsafe {
        let (shm_fd, ctl) = match (env_num(b"MCX_SHM\0"), env_num(b"MCX_CTL\0")) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let p = libc::mmap(
            ::std::ptr::null_mut(),
            ::std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            shm_fd,
            0,
        );
        if p == libc::MAP_FAILED {
            libc::_exit(90);
        }
        let shm = p as *mut Shm;
        libc::mallopt(libc::M_ARENA_MAX, 1);
        loop {
            let mut b = [0u8; 4];
            let r = raw(libc::SYS_read, [ctl as usize, b.as_mut_ptr() as usize, 4, 0, 0, 0]);
            if r != 4 {
                libc::_exit(0);
            }
            let pid = libc::fork();
            if pid < 0 {
                libc::_exit(91);
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                raw(libc::SYS_close, [ctl as usize, 0, 0, 0, 0, 0]);
                raw(libc::SYS_close, [shm_fd as usize, 0, 0, 0, 0, 0]);
                child(shm, argc, argv);
                return;
            }
            let w = pid.to_ne_bytes();
            raw(libc::SYS_write, [ctl as usize, w.as_ptr() as usize, 4, 0, 0, 0]);
            let mut st: c_int = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let w = st.to_ne_bytes();
            raw(libc::SYS_write, [ctl as usize, w.as_ptr() as usize, 4, 0, 0, 0]);
        }
    }
}

unsafe fn child(shm: *mut Shm, argc: c_int, argv: *mut *mut c_char) {
    let s = &mut *shm;
    libc::unsetenv(c"MCX_SHM".as_ptr());
    libc::unsetenv(c"MCX_CTL".as_ptr());
    libc::ftruncate(1, 0);
    libc::lseek(1, 0, libc::SEEK_SET);
    libc::ftruncate(2, 0);
    libc::lseek(2, 0, libc::SEEK_SET);
    if s.cpu_limit > 0 {
        let l = libc::rlimit { rlim_cur: s.cpu_limit as u64, rlim_max: s.cpu_limit as u64 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
    if s.cwd[0] != 0 && libc::chdir(s.cwd.as_ptr() as *const c_char) != 0 {
        libc::_exit(92);
    }
    if s.argc as c_int > argc - 1 {
        libc::_exit(93);
    }
    let mut off = 0usize;
    for i in 0..s.argc as usize {
        *argv.add(1 + i) = s.args.as_mut_ptr().add(off) as *mut c_char;
        while s.args[off] != 0 {
            off += 1;
        }
        off += 1;
    }
    *argv.add(1 + s.argc as usize) = ::std::ptr::null_mut();
    PRNG = s.seed;
    rt::begin(shm);
}

/// While the scheduler is in charge memory is never reused, so that the identity of objects does
/// not depend on when the operating system lets an exiting thread finish.
pub struct Bump;
static REGION: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
static NEXT: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
const REGION_SIZE: usize = 3 << 30;

/// Objects live at other addresses under another ambient seed: addresses are not the same in every process.
pub unsafe fn shift_addresses(seed: u64) -> usize {
    if seed <= 1 {
        return 0;
    }
    let m = (seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20) as usize;
    libc::malloc(16 + m % 60_000);
    libc::mmap(::std::ptr::null_mut(), 4096 * (1 + m / 7 % 509), libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    64 * (m / 11 % 1021)
}

pub unsafe fn bump_on(skip: usize) {
    let p = libc::mmap(
        ::std::ptr::null_mut(),
        REGION_SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        return;
    }
    libc::madvise(p, REGION_SIZE, libc::MADV_NOHUGEPAGE);
    NEXT.store(p as usize + skip, ::std::sync::atomic::Ordering::SeqCst);
    REGION.store(p as usize, ::std::sync::atomic::Ordering::SeqCst);
}

impl Bump {
    #[inline]
    fn take(size: usize, align: usize) -> Option<*mut u8> {
        let base = REGION.load(::std::sync::atomic::Ordering::Relaxed);
        if base == 0 || size > REGION_SIZE {
            return None;
        }
        let need = (size + align.max(16) - 1 + 15) & !15;
        let at = NEXT.fetch_add(need, ::std::sync::atomic::Ordering::Relaxed);
        let at = (at + align - 1) & !(align - 1);
        if at + size > base + REGION_SIZE {
            NEXT.fetch_sub(need, ::std::sync::atomic::Ordering::Relaxed);
            return None;
        }
        Some(at as *mut u8)
    }
    #[inline]
    fn ours(p: *mut u8) -> bool {
        let base = REGION.load(::std::sync::atomic::Ordering::Relaxed);
        base != 0 && (p as usize).wrapping_sub(base) < REGION_SIZE
    }
}

unsafe impl ::std::alloc::GlobalAlloc for Bump {
    #[inline]
    unsafe fn alloc(&self, l: ::std::alloc::Layout) -> *mut u8 {
        match Bump::take(l.size(), l.align()) {
            Some(p) => p,
            None => ::std::alloc::System.alloc(l),
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: ::std::alloc::Layout) -> *mut u8 {
        match Bump::take(l.size(), l.align()) {
            Some(p) => p, // fresh pages, never used before
            None => ::std::alloc::System.alloc_zeroed(l),
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: ::std::alloc::Layout) {
        if !Bump::ours(p) {
            ::std::alloc::System.dealloc(p, l)
        }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: ::std::alloc::Layout, n: usize) -> *mut u8 {
        if REGION.load(::std::sync::atomic::Ordering::Relaxed) == 0 {
            return ::std::alloc::System.realloc(p, l, n);
        }
        if Bump::ours(p) && n <= l.size() {
            return p;
        }
        let q = self.alloc(::std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            ::std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static ALLOC: Bump = Bump;
