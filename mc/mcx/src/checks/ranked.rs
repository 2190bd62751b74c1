//! C01 (topk exact), C02 (topk over-approximates), C03 (botk).
use super::*;
use crate::model::*;

#[derive(Clone)]
pub struct Conf {
    pub n: usize,
    pub k: usize,
    pub h: usize,
    pub threshold: Option<u64>,
    pub j: usize,
    pub u64_: bool,
    pub quiet: bool,
    pub size: String,
    pub seed: Option<u64>,
    pub cap: u32,
    pub policy: u32,
    pub free: bool,
    pub p_keep: Option<&'static str>,
}

impl Conf {
    pub fn new(n: usize, k: usize, j: usize) -> Conf {
        Conf {
            n,
            k,
            h: 2,
            threshold: None,
            j,
            u64_: false,
            quiet: false,
            size: "64KiB".into(),
            seed: Some(1),
            cap: 0,
            policy: 0,
            free: false,
            p_keep: None,
        }
    }
    pub fn h(mut self, h: usize) -> Conf {
        self.h = h;
        self
    }
    pub fn th(mut self, t: u64) -> Conf {
        self.threshold = Some(t);
        self
    }
    pub fn cap(mut self, c: u32) -> Conf {
        self.cap = c;
        self
    }
    pub fn size(mut self, s: &str) -> Conf {
        self.size = s.into();
        self
    }
    pub fn cmd(&self, env: &Env, bot: bool, paths: &[String]) -> Cmd {
        let mut c = env.cmd(&[if bot { "botk" } else { "topk" }], &[]);
        c = c.arg("-n").arg(self.n).arg("-k").arg(self.k).arg("-h").arg(self.h).arg("--size").arg(&self.size);
        if self.j > 0 {
            c = c.arg("-j").arg(self.j);
        }
        if let Some(s) = self.seed {
            c = c.arg("--seed").arg(s);
        }
        if let Some(t) = self.threshold {
            c = c.arg("--threshold").arg(t);
        }
        if self.u64_ {
            c = c.arg("--u64");
        }
        if self.quiet {
            c = c.arg("-q");
        }
        if let Some(p) = self.p_keep {
            c = c.arg("--p-keep").arg(p);
        }
        c = c.arg("--json");
        for p in paths {
            c = c.arg(p);
        }
        c.cap = self.cap;
        c.policy = self.policy;
        c.free_running = self.free;
        c
    }
    pub fn label(&self, what: &str, c: &Corpus) -> String {
        format!(
            "{what} n={} k={} h={} t={:?} j={} u64={} q={} size={} seed={:?} cap={} policy={} {}",
            self.n,
            self.k,
            self.h,
            self.threshold,
            self.j,
            self.u64_,
            self.quiet,
            self.size,
            self.seed,
            self.cap,
            self.policy,
            describe(c)
        )
    }
}

pub fn describe(c: &Corpus) -> String {
    let fs: Vec<String> = c
        .iter()
        .map(|f| {
            let d: Vec<String> = f
                .docs
                .iter()
                .take(6)
                .map(|d| match d.text() {
                    Some(s) => clip_short(s),
                    None => "null".into(),
                })
                .collect();
            format!("[{}{}]", d.join("|"), if f.docs.len() > 6 { format!("|..{}", f.docs.len()) } else { String::new() })
        })
        .collect();
    let mut s = fs.join(" ");
    if s.len() > 160 {
        let mut e = 160;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        s += "..";
    }
    s
}

pub fn clip_short(s: &str) -> String {
    let s: String = s.escape_debug().to_string();
    if s.chars().count() > 40 {
        format!("{}..", s.chars().take(40).collect::<String>())
    } else {
        s
    }
}

fn want(bot: bool, c: &Corpus, f: &Conf) -> Vec<(Vec<String>, u64)> {
    if bot {
        botk(c, f.n, f.k, f.threshold.unwrap_or(u32::MAX as u64))
    } else {
        topk(c, f.n, f.k, f.threshold.unwrap_or(1))
    }
}

/// Exact result expected. A table can have an unlucky collision for one seed; it is judged only if
/// the result is wrong for four seeds.
fn eval_exact(ctx: &mut Ctx, bot: bool, what: &str, c: &Corpus, f: &Conf) -> bool {
    let env = ctx.env;
    let paths = env.corpus(c);
    let w = want(bot, c, f);
    let label = f.label(what, c);
    if !w.is_empty() {
        env.distinct(&label);
    }
    let judge = |o: &Outcome| judge_ranked(&ok_out(o)?, &w);
    let cmd = f.cmd(env, bot, &paths);
    let o = ctx.run(&cmd);
    if judge(&o).is_ok() {
        return true;
    }
    // could this seed have a collision? (expected number of n-grams whose slots are all taken)
    let slots = match f.size.as_str() { "512MiB" => 134217728.0, "8MiB" => 2097152.0, _ => 16384.0 } / if f.u64_ { 2.0 } else { 1.0 };
    let d = distinct_ngrams(c, f.n) as f64;
    let expect = d * (f.h as f64 * d / slots).min(1.0).powi(f.h as i32);
    if expect > 1e-6 {
        let good = [11u64, 12, 13]
            .iter()
            .filter(|s| {
                let mut g = f.clone();
                g.seed = Some(**s);
                judge(&ctx.run(&g.cmd(env, bot, &paths))).is_ok()
            })
            .count();
        if good >= 2 {
            return true;
        }
    }
    ctx.eval(&label, &cmd, &judge)
}

fn distinct_ngrams(c: &Corpus, n: usize) -> usize {
    ngram_counts(c, n).len()
}

fn schedules(env: &Env, bot: bool) -> Vec<(&'static str, Corpus, Conf)> {
    let c = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    let mut v = vec![
        // count of the winner is only reached when both files are counted
        ("cross-file", c(&[&["a b"], &["b a"]]), Conf::new(1, 1, 2).h(1)),
        ("cross-file th0", c(&[&["a"], &["a"]]), Conf::new(1, 2, 2).h(1).th(0)),
        ("last worker decides", c(&[&["a a"], &["b b b"]]), Conf::new(1, 1, 2).h(1)),
        ("ties at the cut-off", c(&[&["a a b b"], &["c c"]]), Conf::new(1, 2, 2).h(1)),
        ("three workers", c(&[&["a"], &["a"], &["a b"]]), Conf::new(1, 2, 3).h(1)),
        ("more files than workers", c(&[&["a"], &["b a"], &["b"]]), Conf::new(1, 1, 2).h(1)),
        ("two hashes", c(&[&["a"], &["a"]]), Conf::new(1, 1, 2).h(2)),
        ("five hashes", c(&[&["a"], &["a"]]), Conf::new(1, 1, 2).h(5)),
        ("full channel", c(&[&["a a b b"], &["c c d d"]]), Conf::new(1, 3, 2).h(1).cap(1)),
        ("bigrams", c(&[&["a b c"], &["a b"]]), Conf::new(2, 2, 2).h(1)),
        ("wide counts", c(&[&["a"], &["a b"]]), {
            let mut f = Conf::new(1, 1, 2).h(1);
            f.u64_ = !bot;
            f
        }),
        ("quiet", c(&[&["a b"], &["b"]]), {
            let mut f = Conf::new(1, 1, 2).h(1);
            f.quiet = true;
            f
        }),
        ("empty file last", c(&[&["a a"], &[]]), Conf::new(1, 1, 2).h(1)),
    ];
    if bot {
        for x in v.iter_mut() {
            if x.2.threshold == Some(0) {
                x.2.threshold = Some(2);
            }
        }
    }
    if env.thorough() {
        v.push(("three workers, two hashes", c(&[&["a"], &["a"], &["a"]]), Conf::new(1, 1, 3).h(2)));
        v.push(("four files", c(&[&["a"], &["b"], &["a"], &["b"]]), Conf::new(1, 1, 3).h(1)));
        v.push(("three hashes", c(&[&["a"], &["a"]]), Conf::new(1, 1, 2).h(3)));
        v.push(("two documents each", c(&[&["a", "b"], &["b", "a"]]), Conf::new(1, 2, 2).h(1)));
    }
    v
}

pub fn bounds(env: &Env) -> Vec<Option<u32>> {
    if env.quick() {
        vec![Some(1), Some(2)]
    } else {
        vec![Some(1), Some(2), Some(3), None]
    }
}

pub fn exact(env: &Env, bot: bool) {
    // 1. every schedule of small configurations
    let confs = schedules(env, bot);
    let secs = if env.quick() { 9.0 } else { 240.0 };
    env.par("schedules", &confs, |ctx, (name, c, f)| {
        let mut f = f.clone();
        let paths = ctx.env.corpus(c);
        let w = want(bot, c, &f);
        // a seed without collision
        for s in 1..=4 {
            f.seed = Some(s);
            let o = ctx.run(&f.cmd(ctx.env, bot, &paths));
            if ok_out(&o).and_then(|s| judge_ranked(&s, &w)).is_ok() {
                break;
            }
        }
        let cmd = f.cmd(ctx.env, bot, &paths);
        ctx.deepen(&f.label(name, c), &cmd, &bounds(ctx.env), secs, &|o| judge_ranked(&ok_out(o)?, &w));
    });
    // 2. every small corpus
    let corp = if env.quick() { gen::small_corpora() } else { gen::tiny_corpora() };
    env.par("small corpora x options", &corp, |ctx, c| {
        let mut i = hash64(describe(c).as_bytes()) as usize;
        for n in [1, 2] {
            for k in [1, 2, 20] {
                for th in if bot { [None, Some(2)] } else { [None, Some(0)] } {
                    i += 1;
                    let mut f = Conf::new(n, k, [1, 2, 0][i % 3]);
                    f.threshold = th;
                    f.policy = (i / 3 % 2) as u32;
                    f.quiet = i / 6 % 2 == 0;
                    f.u64_ = !bot && i / 12 % 4 == 0;
                    f.h = 1 + i / 2 % 3;
                    if bot && i % 5 == 0 {
                        f.p_keep = Some("1");
                    }
                    eval_exact(ctx, bot, "small", c, &f);
                    if ctx.env.quick() && i % 2 == 0 {
                        break;
                    }
                }
            }
        }
    });
    // 3. sizes
    let mut jobs: Vec<(String, Corpus, Conf)> = vec![];
    let big = |n, k, j: usize| {
        let mut f = Conf::new(n, k, j);
        f.free = true;
        f.size = "8MiB".into();
        f.h = 5;
        f.threshold = Some(if bot { u32::MAX as u64 } else { 0 });
        f
    };
    let lmax = if env.quick() { 1025 } else { 16_385 };
    for d in gen::ladder(lmax) {
        if d == 0 {
            continue;
        }
        let ws = gen::words(d);
        // d distinct words, counts 1.. repeated, k around d
        let cnt: Vec<(String, usize)> = ws.iter().enumerate().map(|(i, w)| (w.clone(), 1 + (i * 7) % 5)).collect();
        for k in [1, d.saturating_sub(1).max(1), d, d + 1] {
            jobs.push((format!("distinct {d}"), gen::spread(&cnt, 2, 64), big(1, k, 2)));
        }
        // one word, d times (in one document; over d documents)
        jobs.push((format!("repeat {d} in a document"), vec![file(&[&vec!["x"; d].join(" ")])], big(1, 3, 1)));
        jobs.push((format!("repeat {d} documents"), vec![file(&vec!["x y"; d])], big(2, 3, 1)));
        // threshold next to the count
        for th in [d as u64 - 1, d as u64, d as u64 + 1] {
            let mut f = big(1, 3, 1);
            f.threshold = Some(th);
            jobs.push((format!("threshold {th} count {d}"), vec![file(&[&vec!["x"; d].join(" ")]), file(&["y"])], f));
        }
        // window of d tokens on documents of d-1, d, d+1 tokens
        if d <= 1025 {
            let doc = |m: usize| gen::words(m).join(" ");
            jobs.push((format!("window {d}"), vec![file(&[&doc(d - 1), &doc(d), &doc(d + 1)])], big(d, 4, 1)));
        }
        // long tokens
        jobs.push((format!("token of {d} letters"), vec![file(&[&"q".repeat(d), &format!("{} z", "q".repeat(d))])], big(1, 3, 1)));
    }
    for d in gen::heights(env.quick()) {
        jobs.push((format!("repeat {d} in a document"), vec![file(&[&format!("{} y z y", vec!["x"; d].join(" "))])], big(1, 3, 1)));
        jobs.push((format!("repeat {d} in a document, pairs"), vec![file(&[&format!("{} y z", vec!["x"; d].join(" "))])], big(2, 3, 1)));
        for th in [d as u64, d as u64 - 1, d as u64 / 2] {
            let mut f = big(1, 3, 1);
            f.threshold = Some(th);
            jobs.push((format!("threshold {th} count {d}"), vec![file(&[&format!("{} y z y", vec!["x"; d].join(" "))])], f));
        }
        let mut docs = vec!["x y"; d];
        docs.push("z y");
        jobs.push((format!("repeat {d} documents"), vec![file(&docs)], big(1, 3, 2)));
        let cnt: Vec<(String, usize)> = gen::words(d).into_iter().enumerate().map(|(i, w)| (w, 1 + usize::from((i * 7) % 11 == 0 || i + 2 > d))).collect();
        for k in [20, d + 1] {
            let mut f = big(1, k, 2);
            f.size = "512MiB".into();
            jobs.push((format!("distinct {d}"), gen::spread(&cnt, 2, 64), f));
        }
    }
    for d in if env.quick() { vec![300, 1025] } else { vec![300, 1025, 2049, 2900] } {
        let c: Corpus = (0..d).map(|i| file(&[if i + 1 == d { "a a b" } else { "c b" }])).collect();
        jobs.push((format!("{d} files"), c, big(1, 5, 0)));
    }
    for d in gen::ladder(if env.quick() { 129 } else { 1025 }) {
        if d == 0 {
            continue;
        }
        // d files, words shared between neighbours
        let c: Corpus = (0..d).map(|i| file(&[&format!("w{} w{} all", i, (i + 1) % d)])).collect();
        for j in [1, 4, 0] {
            jobs.push((format!("{d} files"), c.clone(), big(1, 5, j)));
        }
    }
    for tx in gen::odd_texts() {
        for n in [1, 2, 3] {
            jobs.push((format!("text {}", clip_short(&tx)), vec![file(&[&tx, "ab c", "a bc"]), file(&[&tx])], big(n, 20, 2)));
        }
    }
    // pairs that look alike
    for (x, y) in [("ab c", "a bc"), ("a b", "b a"), ("a a b", "a b a"), ("A", "a"), ("é", "e\u{301}"), ("a,b", "a , b"), ("1 2", "12")] {
        for n in [1, 2] {
            jobs.push((format!("pair {x} / {y}"), vec![file(&[x, y, x]), file(&[y])], big(n, 20, 2)));
        }
    }
    if !bot {
        for j in jobs.clone().iter().step_by(5) {
            let mut f = j.2.clone();
            f.u64_ = true;
            jobs.push((j.0.clone(), j.1.clone(), f));
        }
    }
    env.par("sizes", &jobs, |ctx, (name, c, f)| {
        eval_exact(ctx, bot, name, c, f);
        let mut g = f.clone();
        g.quiet = true;
        eval_exact(ctx, bot, name, c, &g);
    });
    human(env, bot);
}

/// The readable output tells the same.
fn human(env: &Env, bot: bool) {
    let c: Vec<Corpus> = vec![
        vec![file(&["a b a", "c \"q\" a"]), file(&["b b"])],
        vec![file(&["x"])],
        vec![file(&[""])],
    ];
    env.par("readable output", &c, |ctx, c| {
        for k in [1, 3] {
            let mut f = Conf::new(1, k, 1);
            f.threshold = Some(if bot { 100 } else { 0 });
            let paths = ctx.env.corpus(c);
            let mut cmd = f.cmd(ctx.env, bot, &paths);
            cmd.args.retain(|a| a != "--json");
            let w = want(bot, c, &f);
            ctx.eval(&f.label("readable", c), &cmd, &|o| {
                let out = ok_out(o)?;
                let l: Vec<&str> = out.lines().collect();
                if l.len() != w.len() {
                    return Err(format!("{} lines for {} n-grams: {out:?}", l.len(), w.len()));
                }
                for (i, (line, (ng, cnt))) in l.iter().zip(&w).enumerate() {
                    let nums: Vec<u64> = line.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                    if nums.first() != Some(&(i as u64 + 1)) || nums.last() != Some(cnt) || !line.contains(&format!("{:?}", ng.join(" "))) {
                        return Err(format!("line {line:?} should report {ng:?} with {cnt} as number {}", i + 1));
                    }
                }
                Ok(())
            });
        }
    });
}

/// C02 / the loose part of C03: tables down to one slot.
pub fn loose(env: &Env, bot: bool) {
    let sizes: &[&str] = if bot { &["4B", "8B", "12B", "16B", "32B", "100B"] } else { &["4B", "5B", "8B", "12B", "16B", "32B", "100B"] };
    let judge = |c: &Corpus, f: &Conf| {
        let truth = ngram_counts(c, f.n);
        let (k, th) = (f.k, f.threshold.unwrap_or(if bot { u32::MAX as u64 } else { 1 }));
        move |o: &Outcome| -> Check {
            let s = ok_out(o)?;
            if bot {
                judge_under(&s, &truth, k, th)
            } else {
                judge_over(&s, &truth, k, th)
            }
        }
    };
    // schedules on colliding tables
    let c = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    let mut confs: Vec<(&str, Corpus, Conf)> = vec![
        ("one slot", c(&[&["a"], &["b"]]), Conf::new(1, 2, 2).h(1).th(0).size("4B")),
        ("one slot, two hashes", c(&[&["a"], &["a"]]), Conf::new(1, 2, 2).h(2).th(0).size("4B")),
        ("two slots", c(&[&["a"], &["a b"]]), Conf::new(1, 1, 2).h(1).th(0).size("8B")),
        ("two slots, two hashes", c(&[&["a"], &["b"]]), Conf::new(1, 2, 2).h(2).th(0).size("8B")),
        ("three slots", c(&[&["a"], &["a"]]), Conf::new(1, 2, 2).h(2).th(0).size("12B")),
        ("three workers", c(&[&["a"], &["a"], &["b"]]), Conf::new(1, 2, 3).h(1).th(0).size("8B")),
        ("default threshold", c(&[&["a"], &["a"]]), Conf::new(1, 1, 2).h(2).size("16B")),
        ("one slot, wide", c(&[&["a"], &["a"]]), {
            let mut f = Conf::new(1, 2, 2).h(1).th(0).size("8B");
            f.u64_ = !bot;
            f
        }),
    ];
    if bot {
        for x in confs.iter_mut() {
            x.2.threshold = None;
        }
    }
    let secs = if env.quick() { 6.0 } else { 200.0 };
    env.par("schedules with collisions", &confs, |ctx, (name, c, f)| {
        let paths = ctx.env.corpus(c);
        let cmd = f.cmd(ctx.env, bot, &paths);
        ctx.deepen(&f.label(name, c), &cmd, &bounds(ctx.env), secs, &judge(c, f));
    });
    let corp = if env.quick() { gen::small_corpora() } else { gen::tiny_corpora() };
    env.par("small corpora x colliding tables", &corp, |ctx, c| {
        let mut i = hash64(describe(c).as_bytes()) as usize;
        for n in [1, 2] {
            for k in [1, 2, 20] {
                for size in sizes {
                    i += 1;
                    if ctx.env.quick() && i % 4 != 0 {
                        continue;
                    }
                    let mut f = Conf::new(n, k, [1, 2][i / 4 % 2]).size(size);
                    f.u64_ = !bot && i / 8 % 3 == 0 && !["4B", "5B"].contains(size);
                    f.h = 1 + i / 3 % 3;
                    f.seed = if i / 16 % 2 == 0 { Some((i / 5 % 7) as u64) } else { None };
                    f.threshold = if bot { [None, Some(2)][i / 32 % 2] } else { [None, Some(0)][i / 32 % 2] };
                    f.policy = (i / 64 % 2) as u32;
                    f.quiet = i / 128 % 2 == 0;
                    if bot {
                        f.p_keep = [None, Some("0.5"), Some("1")][i / 7 % 3];
                    }
                    let paths = ctx.env.corpus(c);
                    let mut cmd = f.cmd(ctx.env, bot, &paths);
                    cmd.seed = i as u64;
                    ctx.env.distinct(&f.label("", c));
                    ctx.eval(&f.label("small", c), &cmd, &judge(c, &f));
                }
            }
        }
    });
    // larger corpora on small tables
    let mut jobs: Vec<(String, Corpus, Conf)> = vec![];
    for d in gen::ladder(if env.quick() { 513 } else { 8193 }) {
        if d == 0 {
            continue;
        }
        let cnt: Vec<(String, usize)> = gen::words(d).into_iter().enumerate().map(|(i, w)| (w, 1 + (i * 5) % 4)).collect();
        for (size, h) in [(4, 1), (4, 3), (8, 2), (d * 2 + 4, 2), (d * 4, 3), (d * 16, 5)] {
            for k in [1, 10, d, d + 1] {
                let mut f = Conf::new(1, k, 2);
                f.free = true;
                f.h = h;
                f.size = format!("{size}B");
                f.threshold = if bot { None } else { Some([0, 1, d as u64][k % 3]) };
                f.u64_ = !bot && size >= 8 && (k + h) % 2 == 0;
                jobs.push((format!("{d} words in {size} bytes"), gen::spread(&cnt, 3, 50), f));
            }
        }
    }
    env.par("sizes with collisions", &jobs, |ctx, (name, c, f)| {
        let paths = ctx.env.corpus(c);
        ctx.env.distinct(&f.label(name, c));
        ctx.eval(&f.label(name, c), &f.cmd(ctx.env, bot, &paths), &judge(c, f));
    });
}

/// --p-keep only removes n-grams; with 1 it removes nothing.
pub fn p_keep(env: &Env) {
    let corp = gen::small_corpora();
    env.par("p-keep", &corp, |ctx, c| {
        let i = hash64(describe(c).as_bytes()) as usize;
        for (p, k) in [("1", 2), ("0.5", 2), ("0.000001", 20), ("1.0", 20)] {
            let mut f = Conf::new(1, k, 1 + i % 2);
            f.p_keep = Some(p);
            let paths = ctx.env.corpus(c);
            let truth = ngram_counts(c, 1);
            let mut cmd = f.cmd(ctx.env, true, &paths);
            cmd.seed = i as u64;
            let w = want(true, c, &f);
            ctx.eval(&f.label(&format!("p-keep {p}"), c), &cmd, &|o| {
                let s = ok_out(o)?;
                if p.starts_with('1') {
                    judge_ranked(&s, &w)?;
                } else {
                    judge_under(&s, &truth, k, u32::MAX as u64)?;
                    for g in lines(&s)? {
                        let ng: Vec<String> = serde_json::from_value(g["tokens"].clone()).unwrap_or_default();
                        if g["count"].as_u64() != truth.get(&ng).copied() {
                            return Err(format!("{ng:?} is reported with count {} but occurs {:?} times", g["count"], truth.get(&ng)));
                        }
                    }
                }
                Ok(())
            });
        }
    });
}
