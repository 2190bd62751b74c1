//! Tiny concurrent programs, interpreted from their argument, on which the explorer is compared
//! with brute force. Nothing here depends on the code under verification.
//!
//! selft "ab|cd|e": thread 0 (main) runs a, b; threads 1, 2 ... run c, d and e. Each thread logs what
//! it sees; main joins the threads and prints all logs.
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{sync_channel, Receiver, RecvTimeoutError, SyncSender, TryRecvError, TrySendError};
use std::sync::{Arc, Barrier, Condvar, Mutex, MutexGuard, OnceLock, RwLock};
use std::thread;
use std::time::Duration;

struct Log(UnsafeCell<String>);
unsafe impl Sync for Log {}
impl Log {
    fn set(&self, s: String) {
        unsafe { *self.0.get() = s }
    }
    fn get(&self) -> String {
        unsafe { (*self.0.get()).clone() }
    }
}

struct Sh {
    x: AtomicUsize,
    y: AtomicUsize,
    m: Mutex<usize>,
    n: Mutex<usize>,
    cv: Condvar,
    rw: RwLock<usize>,
    bar: Barrier,
    once: OnceLock<usize>,
    main: thread::Thread,
}

fn lk<'a>(m: &'a Mutex<usize>, log: &mut String) -> MutexGuard<'a, usize> {
    // (the guards are used after this returns)
    match m.lock() {
        Ok(g) => g,
        Err(p) => {
            log.push('!');
            p.into_inner()
        }
    }
}

fn run(id: usize, ops: &str, sh: &Arc<Sh>, tx: SyncSender<usize>, rx: Option<Receiver<usize>>, log: &Log) {
    let mut tx = Some(tx);
    let mut rx = rx;
    let mut l = String::new();
    if rx.is_some() {
        tx = None;
    }
    let val = id * 10;
    for (k, op) in ops.chars().enumerate() {
        let v = val + k + 1;
        l.push(op);
        match op {
            'l' => l += &format!("{}", sh.x.load(SeqCst)),
            's' => sh.x.store(v, SeqCst),
            'a' => l += &format!("{}", sh.x.fetch_add(1, SeqCst)),
            'c' => l += &format!("{:?}", sh.x.compare_exchange(0, v, SeqCst, SeqCst).is_ok()),
            'w' => l += &format!("{}", sh.x.swap(v, SeqCst)),
            'L' => l += &format!("{}", sh.y.load(SeqCst)),
            'S' => sh.y.store(v, SeqCst),
            // CAS loop
            'C' => {
                let mut o = sh.x.load(SeqCst);
                while let Err(e) = sh.x.compare_exchange(o, o * 2 + v, SeqCst, SeqCst) {
                    o = e;
                }
            }
            // spin until X is set
            'g' => {
                let mut n = 0;
                while sh.x.load(SeqCst) == 0 {
                    thread::yield_now();
                    n += 1;
                    if n > 100_000 {
                        break;
                    }
                }
            }
            'm' => {
                let mut g = lk(&sh.m, &mut l);
                *g = *g * 3 + v;
                l += &format!("{}", *g);
            }
            'x' => {
                let mut g = lk(&sh.m, &mut l);
                let h = lk(&sh.n, &mut l);
                *g = *g * 3 + v + *h;
            }
            'y' => {
                let mut h = lk(&sh.n, &mut l);
                let g = lk(&sh.m, &mut l);
                *h = *h * 3 + v + *g;
            }
            't' => match sh.m.try_lock() {
                Ok(mut g) => {
                    *g = *g * 3 + v;
                    l += &format!("{}", *g);
                }
                Err(_) => l += "-",
            },
            'r' => l += &format!("{}", *sh.rw.read().unwrap_or_else(|p| p.into_inner())),
            'R' => {
                let mut g = sh.rw.write().unwrap_or_else(|p| p.into_inner());
                *g = *g * 3 + v;
            }
            'u' => match sh.rw.try_read() {
                Ok(g) => l += &format!("{}", *g),
                Err(_) => l += "-",
            },
            'U' => match sh.rw.try_write() {
                Ok(mut g) => *g = *g * 3 + v,
                Err(_) => l += "-",
            },
            '>' => {
                if let Some(t) = &tx {
                    l += if t.send(v).is_ok() { "+" } else { "x" };
                }
            }
            ']' => {
                if let Some(t) = &tx {
                    l += match t.try_send(v) {
                        Ok(()) => "+",
                        Err(TrySendError::Full(_)) => "f",
                        Err(TrySendError::Disconnected(_)) => "x",
                    };
                }
            }
            '<' => {
                if let Some(r) = &rx {
                    l += &match r.recv() {
                        Ok(v) => format!("{v}"),
                        Err(_) => "x".into(),
                    };
                }
            }
            '[' => {
                if let Some(r) = &rx {
                    l += &match r.try_recv() {
                        Ok(v) => format!("{v}"),
                        Err(TryRecvError::Empty) => "e".into(),
                        Err(TryRecvError::Disconnected) => "x".into(),
                    };
                }
            }
            '?' => {
                if let Some(r) = &rx {
                    l += &match r.recv_timeout(Duration::from_millis(1)) {
                        Ok(v) => format!("{v}"),
                        Err(RecvTimeoutError::Timeout) => "e".into(),
                        Err(RecvTimeoutError::Disconnected) => "x".into(),
                    };
                }
            }
            'X' => {
                tx = None;
                rx = None;
            }
            'W' => {
                let g = lk(&sh.m, &mut l);
                let g = sh.cv.wait(g).unwrap_or_else(|p| p.into_inner());
                l += &format!("{}", *g);
            }
            'Q' => {
                let mut g = lk(&sh.m, &mut l);
                while *g == 0 {
                    g = sh.cv.wait(g).unwrap_or_else(|p| p.into_inner());
                }
                l += &format!("{}", *g);
            }
            'Z' => {
                let g = lk(&sh.m, &mut l);
                let (g, t) = sh.cv.wait_timeout(g, Duration::from_millis(1)).unwrap_or_else(|p| p.into_inner());
                l += &format!("{}{}", *g, t.timed_out());
            }
            'N' => {
                let mut g = lk(&sh.m, &mut l);
                *g = v;
                sh.cv.notify_one();
            }
            'n' => sh.cv.notify_one(),
            'A' => sh.cv.notify_all(),
            'k' => thread::park(),
            'K' => sh.main.unpark(),
            'p' => {
                let _g = lk(&sh.m, &mut l);
                log.set(format!("{l}P"));
                std::panic::panic_any(1usize);
            }
            '+' => {
                let s2 = sh.clone();
                let h = thread::spawn(move || s2.x.fetch_add(1, SeqCst));
                l += &format!("{:?}", h.join().ok());
            }
            'd' => {
                // a detached thread
                let s2 = sh.clone();
                thread::spawn(move || s2.x.fetch_add(1, SeqCst));
            }
            'f' => {
                let s2 = sh.clone();
                let h = thread::spawn(move || s2.y.fetch_add(1, SeqCst));
                l += &format!("{:?}", h.is_finished());
            }
            'o' => {
                thread::scope(|sc| {
                    sc.spawn(|| sh.x.fetch_add(1, SeqCst));
                    sh.x.fetch_add(5, SeqCst);
                });
            }
            'b' => l += &format!("{}", sh.bar.wait().is_leader()),
            '1' => l += &format!("{}", sh.once.get_or_init(|| v)),
            'e' => {
                std::println!("exit in {id}");
                std::process::exit(3);
            }
            'h' => std::println!("{id}"),
            'q' => thread::sleep(Duration::from_millis(1)),
            _ => {}
        }
    }
    drop(tx);
    drop(rx);
    log.set(l);
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let progs: Vec<String> = a[0].split('|').map(|s| s.to_string()).collect();
    let cap: usize = a.get(1).map(|s| s.parse().unwrap()).unwrap_or(1);
    let sh = Arc::new(Sh {
        x: AtomicUsize::new(0),
        y: AtomicUsize::new(0),
        m: Mutex::new(0),
        n: Mutex::new(0),
        cv: Condvar::new(),
        rw: RwLock::new(0),
        bar: Barrier::new(2),
        once: OnceLock::new(),
        main: thread::current(),
    });
    let (tx, rx) = sync_channel::<usize>(cap);
    // the logs are ordinary memory: one per thread, read after joining
    let logs: Vec<Arc<Log>> = progs.iter().map(|_| Arc::new(Log(UnsafeCell::new(String::new())))).collect();
    let mut hs = vec![];
    for (i, p) in progs.iter().enumerate().skip(1) {
        let (p, sh, tx, log) = (p.clone(), sh.clone(), tx.clone(), logs[i].clone());
        hs.push(thread::spawn(move || run(i, &p, &sh, tx, None, &log)));
    }
    run(0, &progs[0], &sh, tx, Some(rx), &logs[0]);
    let mut bad = 0;
    for h in hs {
        bad = bad * 2 + h.join().is_err() as i32;
    }
    let all: Vec<String> = logs.iter().map(|l| l.get()).collect();
    std::println!("{} x={} y={} m={} {bad}", all.join(" | "), sh.x.load(SeqCst), sh.y.load(SeqCst), *sh.m.lock().unwrap_or_else(|p| p.into_inner()));
}
