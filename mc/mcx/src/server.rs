//! Runs the subject: a fork server per worker thread, one forked child per execution.
use crate::proto::*;
use std::ffi::CString;
use std::os::fd::RawFd;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub args: Vec<String>,
    pub cwd: PathBuf,
    pub seed: u64,
    pub cap: u32,
    pub policy: u32,
    pub tracked: Vec<String>,
    pub faults: Vec<Fault>,
    pub read_chunk: u32,
    pub weak_fails: u32,
    pub max_steps: u32,
    pub free_running: bool,
}

impl Cmd {
    pub fn new(cwd: &Path, args: &[&str]) -> Cmd {
        Cmd {
            args: args.iter().map(|s| s.to_string()).collect(),
            cwd: cwd.to_path_buf(),
            seed: 1,
            max_steps: 200_000,
            ..Default::default()
        }
    }
    pub fn arg(mut self, a: impl ToString) -> Cmd {
        self.args.push(a.to_string());
        self
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: u32,
    /// exit code as the operating system reports it (128+signal when killed)
    pub code: i32,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub recs: Vec<Rec>,
    pub pend: Vec<PendRec>,
    pub msg: String,
    pub io_counts: [[u32; 4]; MAX_TRACK + 1],
    pub faults_hit: u32,
    pub nthreads: u32,
    pub timed_out: bool,
}

impl Outcome {
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn steps(&self) -> usize {
        self.recs.iter().filter(|r| r.cont == 0).count()
    }
    pub fn schedule(&self) -> Vec<u8> {
        self.recs.iter().filter(|r| r.cont == 0).map(|r| r.tid).collect()
    }
    /// Did the program end by itself?
    pub fn ended(&self) -> bool {
        self.status == ST_EXITED
    }
    /// Why the program did not end by itself.
    pub fn hang(&self) -> Option<String> {
        match self.status {
            ST_EXITED => None,
            ST_DEADLOCK => Some(format!("deadlock: every thread is blocked ({})", self.blocked())),
            ST_LIVELOCK => Some(format!("livelock: {} ({})", self.msg, self.blocked())),
            ST_HORIZON => Some("no end within the step horizon".into()),
            _ if self.timed_out => Some("no end within the time limit".into()),
            _ => None,
        }
    }
    pub fn blocked(&self) -> String {
        self.pend
            .iter()
            .map(|p| format!("T{} at {} of object {}", p.tid, KIND_NAMES[p.kind as usize], p.obj))
            .collect::<Vec<_>>()
            .join(", ")
    }
}

pub struct Server {
    bin: PathBuf,
    shm_fd: RawFd,
    shm: *mut Shm,
    ctl: RawFd,
    out_fd: RawFd,
    err_fd: RawFd,
    pid: i32,
    pub runs: u64,
    pub steps: u64,
}
unsafe impl Send for Server {}

fn memfd(name: &str) -> RawFd {
    let c = CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    fd
}

/// Processors we may use, handed out round robin.
fn next_cpu() -> Option<usize> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return None;
        }
        let v: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if v.is_empty() {
            return None;
        }
        Some(v[N.fetch_add(1, Ordering::SeqCst) % v.len()])
    }
}

/// Processor time of one of our processes in ticks of 10 ms.
fn cpu_ticks(pid: i32) -> u64 {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    [11, 12].iter().filter_map(|i| f.get(*i)?.parse::<u64>().ok()).sum()
}

fn read_all(fd: RawFd) -> Vec<u8> {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { libc::fstat(fd, &mut st) };
    let n = st.st_size as usize;
    let mut v = vec![0u8; n];
    let mut off = 0;
    while off < n {
        let r = unsafe { libc::pread(fd, v[off..].as_mut_ptr() as *mut _, n - off, off as i64) };
        if r <= 0 {
            break;
        }
        off += r as usize;
    }
    v.truncate(off);
    v
}

impl Server {
    pub fn new(bin: &Path) -> Server {
        let shm_fd = memfd("mcx-shm");
        unsafe {
            assert_eq!(libc::ftruncate(shm_fd, std::mem::size_of::<Shm>() as i64), 0);
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shm>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                shm_fd,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            let mut s = Server {
                bin: bin.to_path_buf(),
                shm_fd,
                shm: p as *mut Shm,
                ctl: -1,
                out_fd: memfd("mcx-out"),
                err_fd: memfd("mcx-err"),
                pid: 0,
                runs: 0,
                steps: 0,
            };
            s.start();
            s
        }
    }

    fn start(&mut self) {
        unsafe {
            let mut sv = [0 as RawFd; 2];
            assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()), 0);
            let bin = CString::new(self.bin.to_str().unwrap()).unwrap();
            let argv: Vec<CString> =
                std::iter::once(CString::new("wimbd").unwrap()).chain((0..12_000).map(|_| CString::new("x").unwrap())).collect();
            let mut argp: Vec<*const libc::c_char> = argv.iter().map(|c| c.as_ptr()).collect();
            argp.push(std::ptr::null());
            let env: Vec<CString> = ["MCX_SHM=100", "MCX_CTL=101", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "HF_HOME=hf", "RUST_BACKTRACE=0", "LC_ALL=C.UTF-8"]
                .iter()
                .map(|s| CString::new(*s).unwrap())
                .collect();
            let mut envp: Vec<*const libc::c_char> = env.iter().map(|c| c.as_ptr()).collect();
            envp.push(std::ptr::null());
            let nul = CString::new("/dev/null").unwrap();
            let cpu = next_cpu();
            let (shm, out, err) = (self.shm_fd, self.out_fd, self.err_fd);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                let n = libc::open(nul.as_ptr(), libc::O_RDONLY);
                libc::dup2(n, 0);
                // move sources out of the way first
                let o = libc::fcntl(out, libc::F_DUPFD, 200);
                let e = libc::fcntl(err, libc::F_DUPFD, 200);
                let s = libc::fcntl(shm, libc::F_DUPFD, 200);
                let c = libc::fcntl(sv[1], libc::F_DUPFD, 200);
                libc::dup2(o, 1);
                libc::dup2(e, 2);
                libc::dup2(s, 100);
                libc::dup2(c, 101);
                for fd in 3..100 {
                    libc::close(fd);
                }
                for fd in 102..300 {
                    libc::close(fd);
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // same address layout in every server: divergence-free replays across servers
                libc::personality(0x0040000);
                // one processor per server: its threads never run at the same time anyway
                if let Some(cpu) = cpu {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(cpu, &mut set);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                }
                let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                libc::execve(bin.as_ptr(), argp.as_ptr(), envp.as_ptr());
                libc::_exit(89);
            }
            libc::close(sv[1]);
            self.ctl = sv[0];
            self.pid = pid;
        }
    }

    fn stop(&mut self) {
        unsafe {
            if self.ctl >= 0 {
                libc::close(self.ctl);
                self.ctl = -1;
            }
            if self.pid > 0 {
                libc::kill(self.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(self.pid, &mut st, 0);
                self.pid = 0;
            }
        }
    }

    fn recv4(&self, timeout_ms: i32) -> Option<i32> {
        unsafe {
            let mut p = libc::pollfd { fd: self.ctl, events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, timeout_ms);
            if r <= 0 {
                return None;
            }
            let mut b = [0u8; 4];
            if libc::read(self.ctl, b.as_mut_ptr() as *mut _, 4) != 4 {
                return None;
            }
            Some(i32::from_ne_bytes(b))
        }
    }

    pub fn run(&mut self, cmd: &Cmd, prefix: &[u8]) -> Outcome {
        self.run_limit(cmd, prefix, 30_000)
    }

    pub fn run_limit(&mut self, cmd: &Cmd, prefix: &[u8], ms: i32) -> Outcome {
        assert!(prefix.len() <= MAX_PREFIX && cmd.tracked.len() <= MAX_TRACK && cmd.faults.len() <= MAX_FAULTS);
        assert!(cmd.args.len() < 12_000 && cmd.args.iter().map(|a| a.len() + 1).sum::<usize>() < ARGS_BUF, "too many arguments");
        self.runs += 1;
        let s = unsafe { &mut *self.shm };
        s.seed = cmd.seed;
        s.controlled = !cmd.free_running as u32;
        s.cap_override = cmd.cap;
        s.max_steps = cmd.max_steps;
        s.cpu_limit = 60;
        s.argc = cmd.args.len() as u32;
        s.prefix_len = prefix.len() as u32;
        s.prefix[..prefix.len()].copy_from_slice(prefix);
        s.policy = cmd.policy;
        s.read_chunk = cmd.read_chunk;
        s.weak_fails = cmd.weak_fails;
        let c = cmd.cwd.to_str().unwrap().as_bytes();
        s.cwd[..c.len()].copy_from_slice(c);
        s.cwd[c.len()] = 0;
        s.ntracked = cmd.tracked.len() as u32;
        for (i, t) in cmd.tracked.iter().enumerate() {
            let b = t.as_bytes();
            s.tracked[i][..b.len()].copy_from_slice(b);
            s.tracked[i][b.len()] = 0;
        }
        s.nfaults = cmd.faults.len() as u32;
        for (i, f) in cmd.faults.iter().enumerate() {
            s.faults[i] = *f;
        }
        let mut off = 0;
        for a in &cmd.args {
            let b = a.as_bytes();
            s.args[off..off + b.len()].copy_from_slice(b);
            s.args[off + b.len()] = 0;
            off += b.len() + 1;
        }
        s.status = ST_NONE;
        s.exit_code = 0;
        s.stdout_len = u64::MAX;
        s.nsteps = 0;
        s.nrecs = 0;
        s.npend = 0;
        s.nthreads = 0;
        s.faults_hit = 0;
        s.msg[0] = 0;
        s.io_counts = [[0; 4]; MAX_TRACK + 1];
        let go = [1u8; 4];
        let w = unsafe { libc::write(self.ctl, go.as_ptr() as *const _, 4) };
        assert_eq!(w, 4, "fork server is gone");
        let pid = self.recv4(120_000).expect("fork server does not answer");
        let mut timed_out = false;
        // A program that still computes on a busy machine is given more time than one that waits; one that computes
        // without end meets the limit of its processor time.
        let mut answer = self.recv4(ms);
        let mut used = cpu_ticks(pid);
        for _ in 0..if ms >= 10_000 { 8 } else { 0 } {
            if answer.is_some() {
                break;
            }
            let before = used;
            answer = self.recv4(ms.min(15_000));
            used = cpu_ticks(pid);
            if used < before + 10 {
                break;
            }
        }
        let st = match answer {
            Some(st) => st,
            None => {
                timed_out = true;
                unsafe { libc::kill(pid, libc::SIGKILL) };
                self.recv4(120_000).expect("fork server does not answer")
            }
        };
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) };
        let s = unsafe { &mut *self.shm };
        assert!(s.status != ST_NONE || !(89..=93).contains(&code), "the subject could not be started ({code})");
        let mut stdout = read_all(self.out_fd);
        if s.status == ST_EXITED && (s.stdout_len as usize) < stdout.len() {
            stdout.truncate(s.stdout_len as usize);
        }
        self.steps += s.nsteps as u64;
        if code == 128 + libc::SIGXCPU || (code == 137 && !timed_out) {
            timed_out = true;
        }
        let msg_end = s.msg.iter().position(|c| *c == 0).unwrap_or(0);
        Outcome {
            status: s.status,
            code: if s.status == ST_EXITED { s.exit_code & 0xff } else { code },
            stdout,
            stderr: read_all(self.err_fd),
            recs: s.trace[..s.nrecs as usize].to_vec(),
            pend: s.pend[..s.npend as usize].to_vec(),
            msg: String::from_utf8_lossy(&s.msg[..msg_end]).into_owned(),
            io_counts: s.io_counts,
            faults_hit: s.faults_hit,
            nthreads: s.nthreads,
            timed_out,
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop();
        unsafe {
            libc::munmap(self.shm as *mut _, std::mem::size_of::<Shm>());
            libc::close(self.shm_fd);
            libc::close(self.out_fd);
            libc::close(self.err_fd);
        }
    }
}
