//! C09 unique, C10 seeds.
use super::ranked::{bounds, describe, Conf};
use super::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

type Set = BTreeSet<Vec<String>>;

fn set(c: &Corpus, n: usize) -> Set {
    ngram_counts(c, n).into_keys().collect()
}

fn cmd(env: &Env, n: usize, size: &str, h: usize, seed: Option<u64>, j: usize, paths: &[String]) -> Cmd {
    let mut c = env.cmd(&["unique", "--json"], &[]).arg("-n").arg(n).arg("--size").arg(size).arg("-h").arg(h);
    if let Some(s) = seed {
        c = c.arg("--seed").arg(s);
    }
    if j > 0 {
        c = c.arg("-j").arg(j);
    }
    for p in paths {
        c = c.arg(p);
    }
    c
}

pub fn value(o: &Outcome) -> Result<u64, String> {
    let l = lines(&ok_out(o)?)?;
    if l.len() != 1 {
        return Err(format!("{} lines of output", l.len()));
    }
    l[0].get("unique_count").and_then(|v| v.as_u64()).ok_or_else(|| format!("no unique_count in {}", l[0]))
}

/// Exact (or, for large corpora, close) on a large table: judged on several seeds.
fn accurate(ctx: &mut Ctx, name: &str, c: &Corpus, n: usize, h: usize, j: usize, size: (&str, f64)) {
    let d = set(c, n).len() as f64;
    let paths = ctx.env.corpus(c);
    let load = h as f64 * d;
    // expected number of slots taken twice and what that does to the estimate
    let coll = load * load / (2.0 * size.1);
    let tol = if coll < 0.02 { 0.0 } else { 1.0 + 6.0 * coll.sqrt() / h as f64 };
    let judge = |o: &Outcome| -> Check {
        let v = value(o)? as f64;
        if (v - d).abs() > tol {
            return Err(format!("reported {v} distinct {n}-grams, there are {d} (tolerance {tol})"));
        }
        Ok(())
    };
    let label = format!("{name} n={n} h={h} j={j} size={} {}", size.0, describe(c));
    if d > 0.0 {
        ctx.env.distinct(&label);
    }
    let mk = |s: u64| {
        let mut k = cmd(ctx.env, n, size.0, h, Some(s), j, &paths);
        k.free_running = true;
        k
    };
    let first = mk(1);
    if judge(&ctx.run(&first)).is_ok() {
        return;
    }
    let good = [2u64, 3, 4, 5].iter().filter(|s| judge(&ctx.run(&mk(**s))).is_ok()).count();
    if good < 3 {
        ctx.eval(&label, &first, &judge);
    }
}

pub fn c09(env: &Env) {
    let fl = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    // schedules: the result is that of the sequential run on the same table
    let mut sched: Vec<(Corpus, usize, &str, usize, usize)> = vec![];
    for (size, h) in [("1B", 1), ("2B", 1), ("2B", 2), ("3B", 2), ("8B", 1), ("8B", 2), ("16B", 3)] {
        sched.push((fl(&[&["a b"], &["b c"]]), 1, size, h, 2));
        sched.push((fl(&[&["a"], &["a"]]), 1, size, h, 2));
    }
    sched.push((fl(&[&["a"], &["b"], &["a c"]]), 1, "8B", 1, 3));
    sched.push((fl(&[&["a"], &["b"], &["c"]]), 1, "4B", 1, 2));
    let secs = if env.quick() { 5.0 } else { 120.0 };
    env.par("schedules", &sched, |ctx, (c, n, size, h, j)| {
        let paths = ctx.env.corpus(c);
        let seq = ctx.run(&cmd(ctx.env, *n, size, *h, Some(3), 1, &paths));
        let want = match value(&seq) {
            Ok(v) => v,
            Err(e) => {
                ctx.env.violation("sequential", &e, &cmd(ctx.env, *n, size, *h, Some(3), 1, &paths), &[], Some(&seq), false);
                return;
            }
        };
        let k = cmd(ctx.env, *n, size, *h, Some(3), *j, &paths);
        ctx.deepen(&format!("n={n} size={size} h={h} j={j} {}", describe(c)), &k, &bounds(ctx.env), secs, &|o| {
            let v = value(o)?;
            if v != want {
                return Err(format!("reported {v}, the sequential run on the same table reports {want}"));
            }
            Ok(())
        });
    });
    // one value per set of n-grams, monotone, zero only for the empty set
    type Key = (usize, &'static str, usize, u64);
    let seen: Mutex<BTreeMap<Key, BTreeMap<Set, (u64, Vec<String>)>>> = Mutex::new(BTreeMap::new());
    let corp = if env.quick() { gen::small_corpora() } else { gen::tiny_corpora() };
    env.par("small corpora x tables", &corp, |ctx, c| {
        let paths = ctx.env.corpus(c);
        let hh = hash64(describe(c).as_bytes()) as usize;
        let mut i = 0;
        for n in [1usize, 2] {
            for size in ["1B", "2B", "3B", "5B", "16B"] {
                for h in [1usize, 2, 3] {
                    for seed in [0u64, 7] {
                        i += 1;
                        if ctx.env.quick() && (i + hh) % 5 != 0 {
                            continue;
                        }
                        let mut k = cmd(ctx.env, n, size, h, Some(seed), 1 + (hh + i) % 2, &paths);
                        k.policy = ((hh + i) / 2 % 2) as u32;
                        let s = set(c, n);
                        let label = format!("small n={n} size={size} h={h} seed={seed} {}", describe(c));
                        if !s.is_empty() {
                            ctx.env.distinct(&label);
                        }
                        let mut got = None;
                        let o = ctx.run(&k);
                        let prev: Vec<(Set, u64, Vec<String>)> = {
                            let m = seen.lock().unwrap();
                            m.get(&(n, size, h, seed)).map(|m| m.iter().map(|(a, b)| (a.clone(), b.0, b.1.clone())).collect()).unwrap_or_default()
                        };
                        let judge = |o: &Outcome| -> Check {
                            let v = value(o)?;
                            if (v == 0) != s.is_empty() {
                                return Err(format!("reported {v} for a corpus with {} distinct n-grams", s.len()));
                            }
                            for (s2, v2, p2) in &prev {
                                if s2 == &s && *v2 != v {
                                    return Err(format!("reported {v}, but {v2} for files {p2:?} with the same set of n-grams"));
                                }
                                if s2.is_subset(&s) && *v2 > v {
                                    return Err(format!("reported {v}, but {v2} for files {p2:?} with fewer n-grams"));
                                }
                                if s2.is_superset(&s) && *v2 < v {
                                    return Err(format!("reported {v}, but {v2} for files {p2:?} with more n-grams"));
                                }
                            }
                            Ok(())
                        };
                        if judge(&o).is_ok() {
                            got = value(&o).ok();
                        } else {
                            ctx.eval(&label, &k, &judge);
                        }
                        if let Some(v) = got {
                            seen.lock().unwrap().entry((n, size, h, seed)).or_default().entry(s).or_insert((v, paths.clone()));
                        }
                    }
                }
            }
        }
    });
    env.par("small corpora, large table", &corp, |ctx, c| {
        let hh = hash64(describe(c).as_bytes()) as usize;
        for n in [1, 2] {
            accurate(ctx, "small", c, n, 1 + (hh + n) % 5, [1, 2, 0][hh % 3], ("64KiB", 65536.0));
        }
    });
    // sizes
    let mut jobs: Vec<(String, Corpus, usize)> = vec![];
    for d in gen::ladder(if env.quick() { 2049 } else { 33_000 }) {
        if d == 0 {
            continue;
        }
        let ws = gen::words(d);
        jobs.push((format!("{d} distinct"), vec![file(&[&ws.join(" ")]), file(&[&ws[0], &ws[d - 1]])], 1));
        jobs.push((format!("{d} distinct pairs"), vec![file(&[&ws.join(" ")])], 2));
        // repeating an n-gram never removes it (8-bit slots)
        jobs.push((format!("repeated {d} times"), vec![file(&[&vec!["x"; d].join(" "), "y"]), file(&["x"])], 1));
        jobs.push((format!("in {d} documents"), vec![file(&vec!["x y"; d])], 2));
        if d < 260 {
            jobs.push((format!("{d} files"), (0..d).map(|i| file(&[&format!("w{i} all")])).collect(), 1));
            jobs.push((format!("window {d}"), vec![file(&[&gen::words(d - 1).join(" "), &gen::words(d).join(" "), &gen::words(d + 1).join(" ")])], d));
        }
    }
    for d in gen::heights(env.quick()) {
        let last = gen::words(d);
        jobs.push((format!("repeated {d} times"), vec![file(&[&format!("{} y", vec!["x"; d].join(" ")), "z"])], 1));
        let mut docs = vec!["x"; d];
        docs.push("y");
        jobs.push((format!("in {d} documents"), vec![file(&docs)], 1));
        if d < if env.quick() { 20_000 } else { 200_000 } {
            jobs.push((format!("{d} distinct"), vec![file(&[&last.join(" ")])], 1));
        }
    }
    for d in [300, 1025] {
        jobs.push((format!("{d} files"), (0..d).map(|i| file(&[&format!("w{i} all")])).collect(), 1));
    }
    for tx in gen::odd_texts() {
        for n in [1, 2, 3] {
            jobs.push(("odd text".into(), vec![file(&[&tx, "ab c", "a bc"])], n));
        }
    }
    for (x, y) in [("ab c", "a bc"), ("A", "a"), ("é", "e\u{301}"), ("a,b", "a , b"), ("1 2", "12")] {
        jobs.push(("pair".into(), vec![file(&[x]), file(&[y])], 2));
    }
    env.par("sizes and texts", &jobs, |ctx, (name, c, n)| {
        for h in [1, 2, 5, 16] {
            accurate(ctx, name, c, *n, h, [1, 2, 0][h % 3], ("16MiB", 16777216.0));
        }
    });
    // table sizes of every kind
    let mut jobs: Vec<(u64, usize)> = vec![];
    for p in 9..=if env.quick() { 22 } else { 24 } {
        for size in [(1u64 << p) - 1, 1 << p, (1 << p) + 1, 3 << (p - 1), 5 << (p - 2), 10u64.pow(p / 3), 99 << (p - 6)] {
            for d in [1usize, 2, 3, 20, 100, 400] {
                if d as u64 * 4 <= size {
                    jobs.push((size, d));
                }
            }
        }
    }
    jobs.sort_unstable();
    jobs.dedup();
    env.par("table sizes", &jobs, |ctx, (size, d)| {
        let c = vec![file(&[&gen::words(*d).join(" "), "w0 w0"])];
        for h in [1, 3] {
            accurate(ctx, &format!("{d} distinct"), &c, 1, h, 1, (&format!("{size}B"), *size as f64));
        }
    });
    // full and nearly full tables: more n-grams never give less
    let mut jobs: Vec<(usize, usize, u64)> = vec![];
    for size in [1usize, 2, 3, 4, 7, 8, 16, 31, 64, 100, 255, 256] {
        for h in [1, 2, 3, 7] {
            for seed in [0u64, 1, 99] {
                jobs.push((size, h, seed));
            }
        }
    }
    env.par("filling the table", &jobs, |ctx, (size, h, seed)| {
        let mut last = 0;
        let ws = gen::words(size * 6 + 4);
        let mut ms: Vec<usize> = (0..=(*size).min(12)).collect();
        ms.extend([size / 2, *size, size + 1, size * 2, size * 4, size * 6 + 4]);
        ms.sort_unstable();
        ms.dedup();
        for m in ms {
            let c = vec![file(&[&ws[..m].join(" ")])];
            let paths = ctx.env.corpus(&c);
            let mut k = cmd(ctx.env, 1, &format!("{size}B"), *h, Some(*seed), 1, &paths);
            k.free_running = true;
            let mut now = last;
            ctx.eval(&format!("fill {size} slots h={h} seed={seed} with {m}"), &k, &|o| {
                let v = value(o)?;
                if v < last {
                    return Err(format!("{v} for {m} n-grams, but {last} for a subset of them"));
                }
                if (v == 0) != (m == 0) {
                    return Err(format!("{v} for {m} n-grams"));
                }
                Ok(())
            });
            let o = ctx.run(&k);
            if let Ok(v) = value(&o) {
                now = v;
            }
            last = now;
        }
    });
}

pub fn c10(env: &Env) {
    let words = gen::words(40);
    let corpora: Vec<Corpus> = vec![
        vec![file(&[&words.join(" "), &words[..20].join(" ")]), file(&[&words[10..35].join(" ")]), file(&["w1 w2 w3", "w2 w3 w1"])],
        vec![file(&["a b a c"]), file(&["c b", "a"])],
        vec![file(&[&words.join(" ")])],
    ];
    let seeds: Vec<u64> = {
        let mut v: Vec<u64> = (0..if env.quick() { 12 } else { 64 }).collect();
        for p in [8, 16, 31, 32, 33, 48, 62, 63] {
            v.extend([(1u64 << p) - 1, 1 << p, (1 << p) + 1]);
        }
        v.extend([u64::MAX, u64::MAX - 1, u64::MAX / 2, 42, 1234567890123]);
        v.sort_unstable();
        v.dedup();
        v
    };
    let mk = |which: &str, c: &Corpus, seed: u64, size: &str, h: usize, j: usize| -> Cmd {
        let paths = env.corpus(c);
        let mut k = match which {
            "unique" => cmd(env, 1, size, h, Some(seed), j, &paths),
            _ => {
                let mut f = Conf::new(1, 7, j).h(h).size(size);
                f.seed = Some(seed);
                f.u64_ = which == "topk64";
                f.threshold = if which == "botk" { None } else { Some(0) };
                f.cmd(env, which == "botk", &paths)
            }
        };
        k.free_running = size == "4KiB";
        k
    };
    // the same in every process: what the operating system hands out as random differs
    let mut jobs: Vec<(&str, usize, u64, &str, usize, usize)> = vec![];
    for which in ["topk", "topk64", "botk", "unique"] {
        for (ci, _) in corpora.iter().enumerate() {
            for (si, s) in seeds.iter().enumerate() {
                for (size, h) in [("16B", 1), ("64B", 2), ("100B", 5), ("4KiB", 3)] {
                    if env.quick() && (si + ci + h) % 3 != 0 {
                        continue;
                    }
                    jobs.push((which, ci, *s, size, h, if which == "unique" { 1 + si % 3 } else { 1 }));
                }
            }
        }
    }
    env.par("same seed, other processes", &jobs, |ctx, (which, ci, seed, size, h, j)| {
        let base = mk(which, &corpora[*ci], *seed, size, *h, *j);
        let o = ctx.run(&base);
        let want = match ok_out(&o) {
            Ok(s) => s,
            Err(_) => {
                ctx.eval(&format!("{which} seed={seed}"), &base, &|o| ok_out(o).map(|_| ()));
                return;
            }
        };
        ctx.env.distinct(&format!("{which} {ci} {seed} {size} {h}"));
        for amb in [2u64, 77, 4242] {
            let mut k = base.clone();
            k.seed = amb;
            if *which == "unique" {
                k.policy = (amb % 2) as u32;
            }
            ctx.eval(&format!("{which} seed={seed} size={size} h={h} corpus {ci} in another process"), &k, &|o| {
                let s = ok_out(o)?;
                if s != want {
                    return Err(format!("printed {:?} where another process with the same --seed printed {:?}", clip(&s), clip(&want)));
                }
                Ok(())
            });
        }
    });
    // unique: any schedule, any worker count
    let fl = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    let sched: Vec<(Corpus, usize, &str, usize)> = vec![
        (fl(&[&["a b"], &["c d"]]), 2, "4B", 1),
        (fl(&[&["a"], &["b"]]), 2, "5B", 2),
        (fl(&[&["a"], &["b"], &["c"]]), 3, "4B", 1),
        (fl(&[&["a b"], &["c"]]), 2, "7B", 2),
    ];
    let secs = if env.quick() { 5.0 } else { 150.0 };
    env.par("unique under every schedule", &sched, |ctx, (c, j, size, h)| {
        let paths = ctx.env.corpus(c);
        let want = match value(&ctx.run(&cmd(ctx.env, 1, size, *h, Some(9), 1, &paths))) {
            Ok(v) => v,
            Err(_) => return,
        };
        let mut k = cmd(ctx.env, 1, size, *h, Some(9), *j, &paths);
        k.seed = 31337;
        ctx.deepen(&format!("size={size} h={h} j={j} {}", describe(c)), &k, &bounds(ctx.env), secs, &|o| {
            let v = value(o)?;
            if v != want {
                return Err(format!("reported {v}, on one worker {want}"));
            }
            Ok(())
        });
    });
    // different seeds, different hash functions
    let prints: Mutex<BTreeMap<Vec<String>, (u64, Cmd)>> = Mutex::new(BTreeMap::new());
    for which in ["topk", "botk", "unique"] {
        prints.lock().unwrap().clear();
        env.par(&format!("{which}: different seeds"), &seeds, |ctx, seed| {
            let mut v = vec![];
            let mut last = mk(which, &corpora[2], *seed, "64B", 1, 1);
            for i in 0..8 {
                // several corpora, so that even the coarse result of unique tells seeds apart
                let c = vec![file(&[&(0..24 + 3 * i).map(|x| format!("v{}", x * 7 + i)).collect::<Vec<_>>().join(" ")])];
                last = mk(which, &c, *seed, if which == "unique" { "997B" } else { "64B" }, 1 + i % 2, 1);
                last.free_running = true;
                v.push(ctx.run(&last).out());
                if which == "unique" {
                    // many small probes: which single words share a slot
                    for w in 0..12 {
                        let c = vec![file(&[&format!("p{w} p{} p{}", w + 100, w + 200)])];
                        let mut l = mk(which, &c, *seed, "3B", 1, 1);
                        l.free_running = true;
                        v.push(ctx.run(&l).out());
                        if i > 0 {
                            break;
                        }
                    }
                }
            }
            let clash = {
                let mut m = prints.lock().unwrap();
                match m.get(&v) {
                    Some((s, _)) if s != seed => Some(*s),
                    _ => {
                        m.insert(v.clone(), (*seed, last.clone()));
                        None
                    }
                }
            };
            if let Some(s) = clash {
                ctx.env.violation(
                    &format!("{which}: seeds {s} and {seed}"),
                    &format!("seeds {s} and {seed} give the same results on {} probes with colliding tables", v.len()),
                    &last,
                    &[],
                    None,
                    false,
                );
            }
        });
    }
}
