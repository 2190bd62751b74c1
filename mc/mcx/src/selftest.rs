//! The explorer against brute force: on tiny programs (mc/subject/src/selft.rs), the outcomes found
//! with partial-order reduction must be exactly the outcomes found without any reduction, both
//! without a bound and under every deviation bound.
use crate::dpor::{explore, Opts};
use crate::proto::*;
use crate::server::{Cmd, Outcome, Server};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Hand-written programs covering every primitive of the controlled runtime.
pub const CURATED: &[&str] = &[
    "ll|ss", "ls|ls", "a|a|a", "sL|Sl", "cc|cc", "C|C", "C|C|C", "al|w|c", "g|s", "gl|ss", "g|g|s", "m|m|m", "mm|mm", "t|m", "tt|mm", "x|y", "x|x|m",
    "x|ym", "tm|mt|t", "rr|RR", "R|r|u", "U|r|R", "<|>", "<<|>>", "<<|>|>", "<<<|>>|>", "[|>", "[[[|>>", "[<|>|>", "?|>", "??|>|>", "<?|>>", "X|>", "X|>>", "<X|>>>",
    "<X|>|>", "<|]]", "<[|]|]", "X|]>", "<|X|>", "[[|X|>", "<<|>X|>", "W|N", "W|n", "Q|N", "Q|mN|N", "W|A|W", "Z|N", "Z|n", "Zl|sN", "Z|Z|N", "QQ|N", "k|K", "kk|KK",
    "km|mK", "p|m", "m|p", "mm|pm", "t|p|m", "+|l", "+|+", "a+|s", "d|l", "dl|", "f|S", "fL|S", "o|l", "o|a", "b|b", "bm|mb", "1|1", "1|1l|s", "e|s", "e|e", "m|e",
    "l|se", "<|e", "<|>e", "d|e", "q|s", "qt|m", "ql|s", "tq|m", "g|q|s", "Q|qN", "<l|s>", "<m|m>|>", "m<|>m", "[m|m>", "xm|yt", "Wt|tN", "C|g|s", "rRr|R|", "Uu|Ru|",
    "Q|a|N", "a|X>|a", "<|>p", "<|p", "<|p|>", "[[|p", "?[|>p", "+m|m", "mo|m", "1m|m1|1", "h|h", "h|e", "he|h", "h|hh|h", "mh|mh",
];

fn key(o: &Outcome) -> String {
    let mut s = format!("{} {} {}", o.status, o.code, o.out());
    if o.status == ST_DEADLOCK {
        let mut v: Vec<String> = o.pend.iter().map(|p| format!("T{}:{}", p.tid, KIND_NAMES[p.kind as usize])).collect();
        v.sort();
        s += &v.join(",");
    }
    s
}

pub struct Tally {
    pub programs: AtomicUsize,
    pub skipped: AtomicUsize,
    pub brute: AtomicU64,
    pub reduced: AtomicU64,
    pub bad: Mutex<Vec<String>>,
}

fn one(srv: &mut Server, prog: &str, chan: &str, bounds: &[Option<u32>], secs: f64, t: &Tally) {
    let cmd = Cmd::new(Path::new("/"), &[prog, chan]);
    let stop = AtomicBool::new(false);
    t.programs.fetch_add(1, Relaxed);
    for b in bounds {
        let mut sets: Vec<BTreeSet<String>> = vec![];
        let mut complete = true;
        for brute in [false, true] {
            let mut set = BTreeSet::new();
            let o = Opts { bound: *b, max_execs: u64::MAX, max_time: Duration::from_secs_f64(secs), stop_at_first: false, stop: &stop, brute };
            match explore(srv, &cmd, &o, &mut || (), |o| {
                if o.timed_out {
                    t.bad.lock().unwrap().push(format!("{prog} cap {chan}: timed out"));
                }
                set.insert(key(o));
                Ok(())
            }) {
                Ok(st) => {
                    complete &= st.complete;
                    if brute { &t.brute } else { &t.reduced }.fetch_add(st.execs, Relaxed);
                }
                Err(e) => {
                    t.bad.lock().unwrap().push(format!("{prog} cap {chan} bound {b:?} brute {brute}: {e}"));
                    return;
                }
            }
            if !complete {
                break;
            }
            sets.push(set);
        }
        if !complete {
            t.skipped.fetch_add(1, Relaxed);
            continue;
        }
        if sets[0] != sets[1] {
            let miss: Vec<_> = sets[1].difference(&sets[0]).take(3).collect();
            let extra: Vec<_> = sets[0].difference(&sets[1]).take(3).collect();
            t.bad.lock().unwrap().push(format!("{prog} cap {chan} bound {b:?}: {} outcomes with reduction, {} without; missed {miss:?}; extra {extra:?}", sets[0].len(), sets[1].len()));
        }
    }
}

pub fn run(bins: &Path, progs: &[String], bounds: &[Option<u32>], caps: &[&str], secs_each: f64, budget: Duration, threads: usize) -> Tally {
    let t = Tally { programs: AtomicUsize::new(0), skipped: AtomicUsize::new(0), brute: AtomicU64::new(0), reduced: AtomicU64::new(0), bad: Mutex::new(vec![]) };
    let next = AtomicUsize::new(0);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut srv = Server::new(&bins.join("selft"));
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= progs.len() || t0.elapsed() >= budget {
                        t.skipped.fetch_add((i < progs.len()) as usize, Relaxed);
                        break;
                    }
                    let p = &progs[i];
                    let chan = p.contains(['<', '[', '?', '>', ']']);
                    for c in if chan { caps } else { &caps[..1] } {
                        one(&mut srv, p, c, bounds, secs_each, &t);
                    }
                }
            });
        }
    });
    t
}

/// All programs with `a` operations in the main thread and the given numbers in the others.
pub fn all(alphabet: &str, shape: &[usize]) -> Vec<String> {
    let al: Vec<char> = alphabet.chars().collect();
    let total: usize = shape.iter().sum();
    let mut v = vec![];
    for mut i in 0..al.len().pow(total as u32) {
        let mut s = String::new();
        for (k, n) in shape.iter().enumerate() {
            if k > 0 {
                s.push('|');
            }
            for _ in 0..*n {
                s.push(al[i % al.len()]);
                i /= al.len();
            }
        }
        // the main thread dying while another one exits: who comes first is decided inside the real
        // standard library, between two points of ours
        let main = s.split('|').next().unwrap();
        if !(main.contains('p') && s[main.len()..].contains('e')) {
            v.push(s);
        }
    }
    v
}

pub const ALPHABET: &str = "lsacLSmxytrRuU>]<[?XWQZNnpgCe+h";

pub fn main(a: &[String], bins: &Path) -> i32 {
    let progs: Vec<String> = match a.get(2).map(|s| s.as_str()) {
        Some("all") => {
            let al = a.get(4).map(|s| s.as_str()).filter(|s| !s.starts_with("--")).unwrap_or(ALPHABET);
            all(al, &a[3].split(',').map(|x| x.parse().unwrap()).collect::<Vec<_>>())
        }
        Some(p) if !p.starts_with("--") => vec![p.to_string()],
        _ => CURATED.iter().map(|s| s.to_string()).collect(),
    };
    let t0 = Instant::now();
    let t = run(bins, &progs, &[None, Some(0), Some(1), Some(2)], &["1", "0", "2"], 30.0, Duration::from_secs(6 * 3600), 8);
    let bad = t.bad.lock().unwrap();
    println!(
        "{} programs: {} executions with reduction, {} without, {} skipped, {} disagreements, {:.1}s",
        t.programs.load(Relaxed), t.reduced.load(Relaxed), t.brute.load(Relaxed), t.skipped.load(Relaxed), bad.len(), t0.elapsed().as_secs_f64()
    );
    for b in bad.iter().take(30) {
        println!("  {b}");
    }
    !bad.is_empty() as i32
}
