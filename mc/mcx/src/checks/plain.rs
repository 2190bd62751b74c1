//! C04 count, C05 and C06 search, C07 and C08 stats, C17 line limits.
use super::ranked::{bounds, clip_short, describe};
use super::*;
use crate::model::*;
use std::collections::BTreeMap;

pub type Judge = Box<dyn Fn(&Outcome) -> Check + Send + Sync>;

/// What a command is asked, apart from its input.
#[derive(Clone, Debug)]
pub enum Ask {
    Count(Vec<String>),
    /// patterns, with locations, locations limit
    Search(Vec<String>, bool, Option<u64>),
    /// totals, document pointers
    Stats(bool, bool),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub name: String,
    pub corpus: Corpus,
    pub ask: Ask,
    pub j: usize,
    pub quiet: bool,
    pub policy: u32,
    pub free: bool,
    pub cap: u32,
    pub limit: Option<usize>,
    pub extra: Vec<String>,
}

impl Case {
    pub fn new(name: impl ToString, corpus: Corpus, ask: Ask) -> Case {
        Case { name: name.to_string(), corpus, ask, j: 1, quiet: false, policy: 0, free: false, cap: 0, limit: None, extra: vec![] }
    }
    pub fn j(mut self, j: usize) -> Case {
        self.j = j;
        self
    }
    pub fn free(mut self) -> Case {
        self.free = true;
        self
    }
    pub fn label(&self) -> String {
        let a = match &self.ask {
            Ask::Count(s) => format!("count {:?}", s.iter().take(4).map(|s| clip_short(s)).collect::<Vec<_>>()),
            Ask::Search(p, l, m) => format!("search {:?} loc={l} limit={m:?}", p.iter().take(4).map(|s| clip_short(s)).collect::<Vec<_>>()),
            Ask::Stats(..) => "stats".into(),
        };
        format!(
            "{} {a} j={} q={} policy={} cap={} l={:?} {:?} {}",
            self.name,
            self.j,
            self.quiet,
            self.policy,
            self.cap,
            self.limit,
            self.extra,
            describe(&self.corpus)
        )
    }
    pub fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let mut add = |s: &str| a.push(s.to_string());
        match &self.ask {
            Ask::Count(s) => {
                add("count");
                for x in s {
                    add("-s");
                    add(x);
                }
            }
            Ask::Search(p, loc, lim) => {
                add("search");
                for x in p {
                    add("-p");
                    add(x);
                }
                if *loc {
                    add("--with-locations");
                }
                if let Some(l) = lim {
                    add("--locations-limit");
                    add(&l.to_string());
                }
            }
            Ask::Stats(..) => add("stats"),
        }
        if self.j > 0 {
            add("-j");
            add(&self.j.to_string());
        }
        if self.quiet {
            add("-q");
        }
        if let Some(l) = self.limit {
            add("-l");
            add(&l.to_string());
        }
        add("--json");
        for e in &self.extra {
            add(e);
        }
        add("--");
        a
    }
    pub fn cmd(&self, env: &Env, paths: &[String]) -> Cmd {
        let mut c = env.cmd(&[], &[]);
        c.args = self.args();
        c.args.extend(paths.iter().cloned());
        c.policy = self.policy;
        c.free_running = self.free;
        c.cap = self.cap;
        c
    }
    pub fn judge(&self, names: &[String]) -> Judge {
        let c = match self.limit {
            Some(l) => cut(&self.corpus, l),
            None => self.corpus.clone(),
        };
        judge_ask(&self.ask, &c, names)
    }
    pub fn nontrivial(&self) -> bool {
        self.corpus.iter().any(|f| !f.docs.is_empty())
    }
    pub fn eval(&self, ctx: &mut Ctx) -> bool {
        let paths = ctx.env.corpus(&self.corpus);
        let label = self.label();
        if self.nontrivial() {
            ctx.env.distinct(&label);
        }
        let cmd = self.cmd(ctx.env, &paths);
        let j = self.judge(&paths);
        ctx.eval(&label, &cmd, &*j)
    }
    pub fn deepen(&self, ctx: &mut Ctx, secs: f64) -> bool {
        let paths = ctx.env.corpus(&self.corpus);
        let cmd = self.cmd(ctx.env, &paths);
        let j = self.judge(&paths);
        let b = bounds(ctx.env);
        ctx.deepen(&self.label(), &cmd, &b, secs, &*j)
    }
}

pub fn judge_ask(ask: &Ask, c: &Corpus, names: &[String]) -> Judge {
    match ask {
        Ask::Count(s) => {
            let w = count(c, &s.iter().map(|x| x.as_str()).collect::<Vec<_>>());
            Box::new(move |o| judge_count(&ok_out(o)?, &w))
        }
        Ask::Search(p, loc, lim) => {
            let w = search(c, &p.iter().map(|x| x.as_str()).collect::<Vec<_>>());
            let (loc, lim, names) = (*loc, *lim, names.to_vec());
            Box::new(move |o| {
                let s = ok_out(o)?;
                judge_search_counts(&s, &w)?;
                if loc {
                    judge_locations(&s, &w, &names, lim)?;
                }
                Ok(())
            })
        }
        Ask::Stats(t, p) => {
            let (t, p, w, names) = (*t, *p, stats(c), names.to_vec());
            Box::new(move |o| judge_stats(&ok_out(o)?, &w, &names, t, p))
        }
    }
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn fl(fs: &[&[&str]]) -> Corpus {
    fs.iter().map(|f| file(f)).collect()
}

/// The same case with and without -q, with several worker counts.
fn vary(v: Vec<Case>) -> Vec<Case> {
    let mut out = vec![];
    for (i, c) in v.into_iter().enumerate() {
        let mut d = c.clone();
        d.quiet = !c.quiet;
        if d.j == 1 {
            d.j = [2, 0, 3][i % 3];
        }
        out.push(c);
        out.push(d);
    }
    out
}

pub fn words_corpora(env: &Env) -> Vec<(String, Corpus)> {
    let mut v: Vec<(String, Corpus)> = vec![];
    let max = if env.quick() { 2049 } else { 70_000 };
    for d in gen::ladder(max) {
        if d == 0 {
            continue;
        }
        v.push((format!("{d} tokens"), fl(&[&[&vec!["x"; d].join(" "), "y"], &["x"]])));
        v.push((format!("{d} documents"), vec![file(&vec!["x y"; d]), file(&["x"])]));
        v.push((format!("token of {d}"), fl(&[&[&format!("{} x", "q".repeat(d)), "x"], &[&"q".repeat(d)]])));
        if d <= if env.quick() { 130 } else { 1025 } {
            v.push((format!("{d} files"), (0..d).map(|i| file(&[&"x ".repeat(1 + i % 3), "y"])).collect()));
            v.push((format!("{d} files, one last"), (0..d).map(|i| if i + 1 == d { file(&["x y x"]) } else { file(&[]) }).collect()));
        }
    }
    for d in gen::heights(env.quick()) {
        v.push((format!("{d} tokens"), fl(&[&[&format!("{} x y", vec!["z"; d].join(" ")), "y"], &["x"]])));
        let mut docs = vec!["z"; d];
        docs.push("x y");
        v.push((format!("{d} documents"), vec![file(&docs), file(&["x"])]));
        v.push((format!("token of {d}"), fl(&[&[&format!("{} x y", "q".repeat(d)), "x"], &[&"q".repeat(d)]])));
    }
    if !env.quick() {
        for d in [1 << 24, (1 << 24) + 1] {
            v.push((format!("token of {d}"), fl(&[&[&format!("{} x y", "q".repeat(d)), "x"], &["y"]])));
        }
    }
    for d in if env.quick() { vec![300, 1025] } else { vec![300, 1025, 2049, 2900] } {
        v.push((format!("{d} files, the last with more"), (0..d).map(|i| if i + 1 == d { file(&["x y x"]) } else { file(&["z x"]) }).collect()));
    }
    // line length around buffer sizes
    for d in [2030, 2040, 2048, 4090, 4096, 8190, 8192, 8193, 16_384, 32_768, 65_536, 131_072] {
        for e in 0..3 {
            v.push((format!("line of {}", d + e), fl(&[&[&format!("x {}", "z".repeat(d + e)), "x y"], &["x"]])));
        }
    }
    v
}

// ---------------------------------------------------------------- count

pub fn c04(env: &Env) {
    let sched = vec![
        Case::new("two files", fl(&[&["a b a"], &["b a"]]), Ask::Count(strs(&["a", "b a"]))).j(2),
        Case::new("same word", fl(&[&["a"], &["a"]]), Ask::Count(strs(&["a"]))).j(2),
        Case::new("three workers", fl(&[&["a"], &["a"], &["a b"]]), Ask::Count(strs(&["a"]))).j(3),
        Case::new("three files, two workers", fl(&[&["a"], &["a"], &["b"]]), Ask::Count(strs(&["a", "b"]))).j(2),
        Case::new("two documents", fl(&[&["a", "a"], &["a a"]]), Ask::Count(strs(&["a a", "a"]))).j(2),
        Case::new("empty and full", fl(&[&[], &["a"]]), Ask::Count(strs(&["a"]))).j(2),
    ];
    let mut sched = vary(sched);
    sched.iter_mut().for_each(|c| {
        if c.j == 0 {
            c.j = 2
        }
    });
    let secs = if env.quick() { 8.0 } else { 200.0 };
    env.par("schedules", &sched, |ctx, c| {
        c.deepen(ctx, secs);
    });
    let asks: Vec<Vec<String>> = vec![
        strs(&["a"]),
        strs(&["a a", "a"]),
        strs(&["b a", "a b", "b"]),
        strs(&["a b a", "b"]),
        strs(&["a a a", "c", "a"]),
        strs(&[" a ", "a", "a  a"]),
        strs(&["a b", "a b a b a b a b a b"]),
    ];
    let corp = if env.quick() { gen::small_corpora() } else { gen::tiny_corpora() };
    env.par("small corpora x terms", &corp, |ctx, c| {
        for (i, a) in asks.iter().enumerate() {
            let mut k = Case::new("small", c.clone(), Ask::Count(a.clone())).j([1, 2, 0][i % 3]);
            k.policy = (i % 2) as u32;
            k.quiet = i % 3 == 1;
            k.eval(ctx);
        }
    });
    let mut v = vec![];
    for (n, c) in words_corpora(env) {
        v.push(Case::new(&n, c.clone(), Ask::Count(strs(&["x", "x x", "y", "x y"]))).free());
        v.push(Case::new(&n, c, Ask::Count(strs(&["x x x"]))).free());
    }
    for d in gen::ladder(if env.quick() { 257 } else { 1025 }) {
        if d == 0 {
            continue;
        }
        // d search terms; terms of d tokens
        let ws = gen::words(d);
        v.push(Case::new(format!("{d} terms"), vec![file(&[&ws.join(" "), &ws[0]]), file(&[&ws.join(" ")])], Ask::Count(ws.clone())).free());
        let long = vec!["x"; d].join(" ");
        for m in [d - 1, d, d + 1, 2 * d] {
            v.push(Case::new(format!("term of {d} tokens in {m}"), vec![file(&[&vec!["x"; m].join(" ")])], Ask::Count(vec![long.clone(), "x".into()])).free());
            v.push(Case::new(format!("term of {d} tokens in {m}, alone"), vec![file(&[&vec!["x"; m].join(" ")])], Ask::Count(vec![long.clone()])).free());
        }
    }
    // very many search terms; long terms that agree but for one token
    for d in [1025usize, 1100, 5000] {
        let ws = gen::words(d);
        let doc = ws.join(" ");
        let rev: Vec<String> = ws.iter().rev().cloned().collect();
        v.push(Case::new(format!("{d} terms"), vec![file(&[&doc, &ws[d - 1]]), file(&[&rev.join(" ")])], Ask::Count(ws.clone())).free());
        v.push(Case::new(format!("{d} terms backwards"), vec![file(&[&doc, &ws[0]])], Ask::Count(rev)).free());
    }
    for d in [2usize, 3, 5, 16, 17, 64, 65, 128, 129, 256, 257, 1025] {
        let base: Vec<String> = (0..d).map(|i| ["x", "y", "z"][i % 3].to_string()).collect();
        let mut terms = vec![base.join(" ")];
        for at in [0, 1, d / 2, d - 2, d - 1] {
            let mut w = base.clone();
            w[at] = "other".into();
            let w = w.join(" ");
            if !terms.contains(&w) {
                terms.push(w);
            }
        }
        let docs: Vec<String> = terms.iter().enumerate().flat_map(|(i, w)| vec![w.clone(); i + 1]).collect();
        let refs: Vec<&str> = docs.iter().map(|s| s.as_str()).collect();
        v.push(Case::new(format!("terms of {d} tokens that differ in one"), vec![file(&refs)], Ask::Count(terms.clone())).free());
        v.push(Case::new(format!("terms of {d} tokens that differ in one, in one document"), vec![file(&[&docs.join(" "), &terms[0]])], Ask::Count(terms.clone())).free());
        for w in &terms {
            v.push(Case::new(format!("one term of {d} tokens among similar ones"), vec![file(&refs)], Ask::Count(vec![w.clone()])).free());
        }
    }
    let odd = gen::odd_texts();
    for a in &odd {
        if tokens(a).is_empty() || a.contains('\0') {
            continue;
        }
        let c: Corpus = vec![File { docs: odd.iter().map(|s| t(s)).collect() }, file(&[a, &format!("{a} {a}"), &format!("x{a}")])];
        v.push(Case::new("odd text", c, Ask::Count(vec![a.clone(), tokens(a)[0].clone(), tokens(a).last().unwrap().clone()])).free());
    }
    for (x, y) in [("ab c", "a bc"), ("A", "a"), ("é", "e\u{301}"), ("a,b", "a , b"), ("1 2", "12"), ("a.b", "a. b")] {
        v.push(Case::new("pair", fl(&[&[x, y, x], &[y]]), Ask::Count(strs(&[x, y]))).free());
        v.push(Case::new("pair", fl(&[&[x, y, x], &[y]]), Ask::Count(strs(&[x]))).free());
    }
    let v = vary(v);
    env.par("sizes and texts", &v, |ctx, c| {
        c.eval(ctx);
    });
    readable(env, &[Ask::Count(strs(&["a", "b a", "nothing"])), Ask::Count(strs(&["b"]))]);
}

/// The readable output tells the same numbers.
fn readable(env: &Env, asks: &[Ask]) {
    let mut v = vec![];
    for a in asks {
        for c in [fl(&[&["a b a b", "c"], &["b a"]]), fl(&[&["x"], &[]]), fl(&[&["b b b b b b b b b b b b"]])] {
            v.push(Case::new("readable", c, a.clone()));
        }
    }
    env.par("readable output", &v, |ctx, k| {
        let paths = ctx.env.corpus(&k.corpus);
        let mut cmd = k.cmd(ctx.env, &paths);
        cmd.args.retain(|x| x != "--json");
        let want: Vec<(String, u64)> = match &k.ask {
            Ask::Count(s) => count(&k.corpus, &s.iter().map(|x| x.as_str()).collect::<Vec<_>>()).into_iter().map(|(t, c)| (t.join(" "), c)).collect(),
            Ask::Search(p, ..) => search(&k.corpus, &p.iter().map(|x| x.as_str()).collect::<Vec<_>>()).into_iter().map(|(t, c)| (t, c.0)).collect(),
            Ask::Stats(..) => {
                let s = stats(&k.corpus);
                vec![("documents".into(), s.documents), ("max tokens".into(), s.max), ("min tokens".into(), s.min), ("bytes".into(), s.bytes), ("total tokens".into(), s.tokens)]
            }
        };
        let is_stats = matches!(k.ask, Ask::Stats(..));
        ctx.eval(&k.label(), &cmd, &|o| {
            let out = ok_out(o)?;
            for (t, c) in &want {
                let hit = out.lines().any(|l| {
                    let has = if is_stats { l.contains(t.as_str()) } else { l.contains(&format!("{t:?}")) };
                    let n: String = l.replace(',', "");
                    has && n.split(|c: char| !c.is_ascii_digit()).any(|x| x == c.to_string())
                });
                if !hit {
                    return Err(format!("no line reports {t:?} with {c}: {out:?}"));
                }
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- search

pub fn patterns() -> Vec<Vec<String>> {
    vec![
        strs(&["a"]),
        strs(&["a+", "a"]),
        strs(&["", "b"]),
        strs(&["a|b", "^a", "b$"]),
        strs(&["(?i)A", "\\bb\\b"]),
        strs(&["a*", "[ab] [ab]", "a", "a"]),
        strs(&[".", "x"]),
        strs(&["\\s", "a b|b a"]),
        strs(&["a ", " a", " b ", " "]),
    ]
}

fn search_sched(loc: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut add = |name: &str, c: Corpus, p: &[&str], j: usize, lim: Option<u64>, cap: u32| {
        let mut k = Case::new(name, c, Ask::Search(strs(p), loc, if loc { lim } else { None })).j(j);
        k.cap = if loc { cap } else { 0 };
        v.push(k);
    };
    add("two files", fl(&[&["a b a"], &["b a"]]), &["a"], 2, None, 0);
    add("two patterns", fl(&[&["a"], &["b a"]]), &["a", "b"], 2, None, 0);
    add("limit 1", fl(&[&["a a"], &["a"]]), &["a"], 2, Some(1), 0);
    add("limit 2", fl(&[&["a", "a"], &["a a"]]), &["a"], 2, Some(2), 0);
    add("limit 0", fl(&[&["a"], &["a"]]), &["a"], 2, Some(0), 0);
    add("three workers", fl(&[&["a"], &["a"], &["a"]]), &["a"], 3, Some(2), 0);
    add("three files, two workers", fl(&[&["a"], &["b"], &["a a"]]), &["a"], 2, None, 0);
    add("full channel", fl(&[&["a"], &["a b"], &["b"]]), &["a", "b"], 2, None, 1);
    v
}

pub fn c05_06(env: &Env, loc: bool) {
    let mut sched = search_sched(loc);
    if !loc {
        // the counts must also be right when locations are asked for
        sched.extend(search_sched(true).into_iter().take(3));
    }
    let secs = if env.quick() { 9.0 } else { 220.0 };
    env.par("schedules", &sched, |ctx, c| {
        c.deepen(ctx, secs);
    });
    let pats = patterns();
    let corp = if env.quick() { gen::small_corpora() } else { gen::tiny_corpora() };
    env.par("small corpora x patterns", &corp, |ctx, c| {
        for (i, p) in pats.iter().enumerate() {
            let h = hash64(describe(c).as_bytes()) as usize + i;
            let lim = if loc { [None, Some(0), Some(1), Some(2), None, Some(3), None, Some(100)][h % 8] } else { None };
            let withloc = loc || h % 4 == 0;
            let mut k = Case::new("small", c.clone(), Ask::Search(p.clone(), withloc, lim)).j([1, 2, 0][h / 8 % 3]);
            k.policy = (h / 3 % 2) as u32;
            k.quiet = h / 5 % 2 == 0;
            k.eval(ctx);
        }
    });
    let mut v = vec![];
    let mk = |n: &str, c: &Corpus, p: Vec<String>, lim: Option<u64>| Case::new(n, c.clone(), Ask::Search(p, loc, if loc { lim } else { None })).free();
    for (n, c) in words_corpora(env) {
        v.push(mk(&n, &c, strs(&["x", "y", "x x"]), None));
        if loc {
            let total = search(&c, &["x"])["x"].0;
            for l in [total.saturating_sub(1), total, total + 1, total / 2] {
                v.push(mk(&n, &c, strs(&["x", "y"]), Some(l)));
            }
        } else {
            v.push(mk(&n, &c, strs(&["q+|z", "[xy]"]), None));
        }
    }
    for d in gen::ladder(if env.quick() { 129 } else { 513 }) {
        if d == 0 {
            continue;
        }
        let ws = gen::words(d);
        v.push(mk(&format!("{d} patterns"), &vec![file(&[&ws.join(" "), &ws[0]]), file(&[&ws.join(" ")])], ws.iter().map(|w| format!("{w}\\b")).collect(), Some(3)));
    }
    let odd = gen::odd_texts();
    let c: Corpus = vec![File { docs: odd.iter().map(|s| t(s)).collect() }, File { docs: odd.iter().rev().map(|s| Doc::Text(format!("é{s}é"))).collect() }];
    for p in [".", "\\w+", "é", "\\s+", "^", "$", "(?m)^", "(?s).", "\n", "\n\n", "[\r\n]$", "\\n\\z", "\\s\\z", "\\A\\s", " ", "  ", "\t", "a ", " b", ".\n", "\\p{L}", "\\P{L}", "(?-u:a)", "[^a]", "\\d", "🇩", "\u{301}", "(a)(b)?", "a{2,}", "\\\\", "\"", "(?i)É", "\\b", "\\B", "\\w{150}|b", "[a-zé]{1,99}"] {
        for lim in [None, Some(5)] {
            v.push(mk("odd texts", &c, strs(&[p]), lim));
        }
    }
    // documents with null text or without text between matching ones, and empty files between
    let holes = vec![File { docs: vec![Doc::Null, t("a"), Doc::Missing, t("a a")] }, File::default(), File { docs: vec![Doc::Missing, Doc::Null] }, file(&["", "a"])];
    for lim in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)] {
        v.push(mk("holes", &holes, strs(&["a", "z"]), lim));
    }
    let v = vary(v);
    env.par("sizes and texts", &v, |ctx, c| {
        c.eval(ctx);
    });
    if loc {
        repeated_files(env);
    }
    if !loc {
        readable(env, &[Ask::Search(strs(&["a", "b a", "nothing"]), false, None), Ask::Search(strs(&["b"]), true, None)]);
    }
}

/// The same file given more than once is read as often, and its matches are listed as often.
fn repeated_files(env: &Env) {
    let corpus = fl(&[&["a b a", "b", "a"], &["b", "a a"]]);
    let mut asks: Vec<(Vec<usize>, Option<u64>, usize)> = vec![];
    for s in [vec![0, 0], vec![1, 1], vec![0, 1, 0], vec![1, 0, 0], vec![1, 1, 1], vec![0, 0, 1, 1]] {
        for lim in std::iter::once(None).chain((0..=8).map(Some)) {
            for j in 1..=2 {
                asks.push((s.clone(), lim, j));
            }
        }
    }
    let secs = if env.quick() { 4.0 } else { 60.0 };
    env.par("files given more than once", &asks, |ctx, (s, lim, j)| {
        let paths = ctx.env.corpus(&corpus);
        let given: Vec<String> = s.iter().map(|i| paths[*i].clone()).collect();
        let mut k = Case::new(format!("files {s:?}"), corpus.clone(), Ask::Search(strs(&["a", "z"]), true, *lim)).j(*j);
        k.quiet = true;
        let cmd = k.cmd(ctx.env, &given);
        let times: Vec<u64> = (0..paths.len()).map(|i| s.iter().filter(|x| **x == i).count() as u64).collect();
        let truth = search(&corpus, &["a", "z"]);
        let (lim, names) = (*lim, paths.clone());
        let judge: Judge = Box::new(move |o| {
            for g in lines(&ok_out(o)?)? {
                let p = g.get("pattern").and_then(|v| v.as_str()).unwrap_or("?");
                let (_, per) = truth.get(p).ok_or_else(|| format!("pattern {p:?} was not asked for"))?;
                let mut want: BTreeMap<(String, u64, u64, u64), u64> = BTreeMap::new();
                for (i, docs) in per {
                    for (line, _, ms) in docs {
                        for m in ms {
                            *want.entry((names[*i].clone(), *line as u64, m.0 as u64, m.1 as u64)).or_insert(0) += times[*i];
                        }
                    }
                }
                want.retain(|_, n| *n > 0);
                let total: u64 = want.values().sum();
                if g.get("count").and_then(|v| v.as_u64()) != Some(total) {
                    return Err(format!("{g}: expected {total} matches"));
                }
                let mut got: BTreeMap<(String, u64, u64, u64), u64> = BTreeMap::new();
                for (path, locs) in g.get("matches").and_then(|v| v.as_object()).ok_or_else(|| format!("no matches in {g}"))? {
                    for l in locs.as_array().into_iter().flatten() {
                        let u = |v: &serde_json::Value, k: &str| v.get(k).and_then(|x| x.as_u64()).unwrap_or(u64::MAX);
                        for m in l.get("submatches").and_then(|v| v.as_array()).into_iter().flatten() {
                            *got.entry((path.clone(), u(l, "line_num"), u(m, "start_col"), u(m, "end_col"))).or_insert(0) += 1;
                        }
                    }
                }
                let ok = match lim {
                    None => got == want,
                    Some(l) => got.values().sum::<u64>() == l.min(total) && got.iter().all(|(k, n)| want.get(k).is_some_and(|w| n <= w)),
                };
                if !ok {
                    return Err(format!("{p:?}, limit {lim:?}: listed {got:?} (location -> times), the matches are {want:?}"));
                }
            }
            Ok(())
        });
        let label = format!("files given {s:?}, limit {lim:?}, {j} workers");
        ctx.env.distinct(&label);
        if *j == 2 && s.len() == 2 && matches!(lim, None | Some(1) | Some(5)) {
            ctx.deepen(&label, &cmd, &bounds(ctx.env), secs, &*judge);
        } else {
            ctx.eval(&label, &cmd, &*judge);
        }
    });
}

// ---------------------------------------------------------------- stats

pub fn c07_08(env: &Env, totals: bool, pointers: bool) {
    let a = || Ask::Stats(totals, pointers);
    let sched = vec![
        Case::new("growing", fl(&[&["a"], &["a b"]]), a()).j(2),
        Case::new("same size", fl(&[&["a b"], &["b a"]]), a()).j(2),
        Case::new("three sizes", fl(&[&["a b", "a"], &["b a c"]]), a()).j(2),
        Case::new("three workers", fl(&[&["a"], &["a b"], &["a b c"]]), a()).j(3),
        Case::new("three files, two workers", fl(&[&["a b c"], &["a"], &["a b"]]), a()).j(2),
        Case::new("no text", vec![File { docs: vec![Doc::Null] }, file(&["a"])], a()).j(2),
        Case::new("empty text", fl(&[&[""], &["a", ""]]), a()).j(2),
        Case::new("empty file", fl(&[&[], &["a"]]), a()).j(2),
        Case::new("rising and falling", fl(&[&["a", "a b", "a"], &["a b"]]), a()).j(2),
    ];
    let secs = if env.quick() { 10.0 } else { 250.0 };
    env.par("schedules", &sched, |ctx, c| {
        c.deepen(ctx, secs);
    });
    // lengths matter here, not letters
    let docs: Vec<Doc> = vec![t(""), t("a"), t("a b"), t("a b c"), Doc::Null, Doc::Missing];
    let fs = gen::files(&docs, if env.quick() { 2 } else { 3 });
    let mut corp = gen::corpora(&fs, 1);
    corp.extend(gen::corpora(&gen::files(&docs, 2), 2));
    if env.thorough() {
        corp.extend(gen::corpora(&gen::files(&docs, 1), 4));
    }
    corp.extend(gen::corpora(&gen::files(&docs, 1), 3));
    env.par("small corpora", &corp, |ctx, c| {
        let h = hash64(describe(c).as_bytes()) as usize;
        for x in 0..if ctx.env.quick() { 2 } else { 4 } {
            let h = h + x;
            let mut k = Case::new("small", c.clone(), a()).j([1, 2, 0, 3][h % 4]);
            k.policy = (h / 4 % 2) as u32;
            k.quiet = h / 8 % 2 == 0;
            k.eval(ctx);
        }
    });
    let mut v = vec![];
    for (n, c) in words_corpora(env) {
        v.push(Case::new(n, c, a()).free());
    }
    // d documents attain the maximum (minimum); then a longer one
    for d in gen::ladder(if env.quick() { 300 } else { 5000 }) {
        let mut docs: Vec<&str> = vec!["a b"; d];
        v.push(Case::new(format!("{d} equal"), vec![file(&docs), file(&docs)], a()).free());
        docs.push("a b c");
        v.push(Case::new(format!("{d} then longer"), vec![file(&docs), file(&["a b"])], a()).free());
        docs.push("a");
        v.push(Case::new(format!("{d} then shorter"), vec![file(&docs), file(&["a b", "a"])], a()).free());
        let up: Vec<String> = (0..d.min(300)).map(|i| "a ".repeat(i)).collect();
        v.push(Case::new(format!("{d} rising"), vec![file(&up.iter().map(|s| s.as_str()).collect::<Vec<_>>())], a()).free());
        let down: Vec<String> = (0..d.min(300)).rev().map(|i| "a ".repeat(i)).collect();
        v.push(Case::new(format!("{d} falling"), vec![file(&down.iter().map(|s| s.as_str()).collect::<Vec<_>>()), file(&up.iter().map(|s| s.as_str()).collect::<Vec<_>>())], a()).free());
        v.push(Case::new(format!("{d} files of one"), (0..d.min(200)).map(|i| file(&[&"a ".repeat(1 + i % 3)])).collect(), a()).free());
    }
    // very many documents of the greatest length
    for d in gen::heights(env.quick()) {
        let mut docs: Vec<&str> = vec!["a b"; d];
        docs.push("a");
        v.push(Case::new(format!("{d} longest"), vec![file(&docs), file(&["a", "a b"])], a()).free());
    }
    for tx in gen::odd_texts() {
        v.push(Case::new("odd text", vec![file(&[&tx, "a b", &tx]), file(&["a"])], a()).free());
        v.push(Case::new("odd text", vec![file(&[&tx])], a()).free());
    }
    v.retain(|c| !c.corpus.is_empty());
    let v = vary(v);
    env.par("sizes and texts", &v, |ctx, c| {
        c.eval(ctx);
    });
    // lines written in other ways: bytes count as they are
    let raw: Vec<(&str, &[u8], (u64, u64, u64))> = vec![
        ("no final newline", b"{\"text\":\"a b\"}\n{\"text\":\"c\"}", (3, 2, 28)),
        ("spaces and other fields", b"  {\"id\": 7, \"text\": \"a\", \"meta\": {\"text\": \"x y z\"}}  \n", (1, 1, 55)),
        ("carriage return", b"{\"text\":\"a\"}\r\n{\"text\":\"b\"}\r\n", (2, 2, 28)),
        ("escapes", b"{\"text\":\"\\u0061\\n\\u0062\"}\n", (2, 1, 26)),
        ("bytes not characters", "{\"text\":\"é é\"}\n".as_bytes(), (2, 1, 17)),
    ];
    if totals {
        env.par("lines as written", &raw, |ctx, (n, b, (tk, docs, _))| {
            let p = ctx.env.put_bytes(b, "raw");
            let cmd = ctx.env.cmd(&["stats", "--json", "-j", "1"], &[p]);
            let bytes = b.len() as u64;
            ctx.eval(n, &cmd, &|o| {
                let g = lines(&ok_out(o)?)?;
                for (k, w) in [("total_tokens", *tk), ("total_documents", *docs), ("total_bytes", bytes)] {
                    if g.first().and_then(|g| g[k].as_u64()) != Some(w) {
                        return Err(format!("{k} should be {w}: {g:?}"));
                    }
                }
                Ok(())
            });
        });
        readable(env, &[a()]);
    }
}

// ---------------------------------------------------------------- line limits

/// With --limit N every command behaves as if the files ended after N lines.
pub fn c17(env: &Env) {
    use super::ranked::Conf;
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum W {
        Topk,
        Botk,
        Count,
        Search,
        Stats,
        Unique,
    }
    const ALL: [W; 6] = [W::Topk, W::Botk, W::Count, W::Search, W::Stats, W::Unique];
    fn make(env: &Env, w: W, c: &Corpus, paths: &[String], lim: usize, j: usize, quiet: bool) -> (Cmd, Judge) {
        let cutc = cut(c, lim);
        let ask = match w {
            W::Count => Some(Ask::Count(vec!["a".into(), "b a".into()])),
            W::Search => Some(Ask::Search(vec!["a".into(), "b".into()], true, None)),
            W::Stats => Some(Ask::Stats(true, true)),
            _ => None,
        };
        if let Some(a) = ask {
            let mut k = Case::new("", c.clone(), a.clone()).j(j);
            k.limit = Some(lim);
            k.quiet = quiet;
            let cmd = k.cmd(env, paths);
            return (cmd, judge_ask(&a, &cutc, paths));
        }
        match w {
            W::Topk | W::Botk => {
                let bot = w == W::Botk;
                let mut f = Conf::new(1, 5, j);
                f.quiet = quiet;
                f.threshold = if bot { None } else { Some(0) };
                let mut cmd = f.cmd(env, bot, paths);
                cmd.args.insert(1, "-l".into());
                cmd.args.insert(2, lim.to_string());
                let want = if bot { botk(&cutc, 1, 5, u32::MAX as u64) } else { topk(&cutc, 1, 5, 0) };
                (cmd, Box::new(move |o| judge_ranked(&ok_out(o)?, &want)))
            }
            _ => {
                let want = ngram_counts(&cutc, 1).len() as u64;
                let mut cmd = env.cmd(&["unique", "--json", "-n", "1", "--size", "4KiB", "-h", "2", "--seed", "3"], &[]);
                cmd = cmd.arg("-l").arg(lim);
                if j > 0 {
                    cmd = cmd.arg("-j").arg(j);
                }
                if quiet {
                    cmd = cmd.arg("-q");
                }
                for p in paths {
                    cmd = cmd.arg(p);
                }
                cmd.free_running = true;
                (
                    cmd,
                    Box::new(move |o| {
                        let v = super::uniq::value(o)?;
                        if v != want {
                            return Err(format!("reported {v} distinct tokens, the lines within the limit have {want}"));
                        }
                        Ok(())
                    }),
                )
            }
        }
    }
    let docs: Vec<Doc> = vec![t("a"), t("b a"), t("c"), Doc::Null];
    let fs = gen::files(&docs, 2);
    let mut corp = gen::corpora(&gen::files(&docs, 3), 1);
    corp.extend(gen::corpora(&fs, 2));
    corp.extend(gen::corpora(&gen::files(&docs[..2], 1), 3));
    env.par("small corpora x limits", &corp, |ctx, c| {
        let paths = ctx.env.corpus(c);
        let h = hash64(describe(c).as_bytes()) as usize;
        for (i, w) in ALL.iter().enumerate() {
            for lim in [0usize, 1, 2, 3, 4] {
                if ctx.env.quick() && (h + i + lim) % 3 == 0 {
                    continue;
                }
                let (cmd, j) = make(ctx.env, *w, c, &paths, lim, [1, 2, 0][(h + i + lim) % 3], (h + i + lim) / 3 % 2 == 0);
                let label = format!("{w:?} limit {lim} {}", describe(c));
                ctx.env.distinct(&label);
                ctx.eval(&label, &cmd, &*j);
            }
        }
    });
    // nothing after the limit matters: unreadable content after it
    let bad: Vec<(&str, Vec<u8>)> = vec![
        ("broken json", b"{\"text\": \n".to_vec()),
        ("blank line", b"\n".to_vec()),
        ("not utf-8", b"{\"text\":\"\xff\xfe\"}\n".to_vec()),
        ("wrong type", b"{\"text\": 3}\n".to_vec()),
        ("another text", b"{\"text\":\"a b a b zzz\"}\n".to_vec()),
        ("no newline", b"{\"text\":\"zzz".to_vec()),
    ];
    let mut jobs = vec![];
    for w in ALL {
        for (bi, _) in bad.iter().enumerate() {
            for good in [0usize, 1, 2, 3] {
                for quiet in [false, true] {
                    jobs.push((w, bi, good, quiet));
                }
            }
        }
    }
    env.par("content after the limit", &jobs, |ctx, (w, bi, good, quiet)| {
        let gf = file(&["a", "b a", "a a"][..*good]);
        let mut b: Vec<u8> = gf.docs.iter().flat_map(|d| d.line().into_bytes()).collect();
        b.extend(&bad[*bi].1);
        b.extend(b"{\"text\":\"c\"}\n");
        for multi in [false, true] {
            let p1 = ctx.env.put_bytes(&b, "bad");
            let mut paths = vec![p1];
            let mut c = vec![gf.clone()];
            if multi {
                let g = file(&["a"; 5][..*good]);
                paths.push(ctx.env.put(&g, 1));
                c.push(g);
            }
            let (cmd, j) = make(ctx.env, *w, &c, &paths, *good, if multi { 2 } else { 1 }, *quiet);
            ctx.eval(&format!("{w:?}: {} after line {good}", bad[*bi].0), &cmd, &*j);
        }
    });
    // the limit is per file, whatever the schedule
    let fl = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    let mut sched = vec![];
    for w in [W::Stats, W::Count, W::Search, W::Topk] {
        sched.push((w, fl(&[&["a", "b a", "c"], &["a"]]), 1usize, 2usize));
        sched.push((w, fl(&[&["a", "b"], &["b", "a"]]), 1, 2));
        sched.push((w, fl(&[&["a"], &["b"]]), 0, 2));
        sched.push((w, fl(&[&["a", "b"], &["a", "b"]]), 3, 2));
    }
    let secs = if env.quick() { 5.0 } else { 100.0 };
    env.par("schedules", &sched, |ctx, (w, c, lim, j)| {
        let paths = ctx.env.corpus(c);
        let (cmd, judge) = make(ctx.env, *w, c, &paths, *lim, *j, false);
        ctx.deepen(&format!("{w:?} limit {lim} {}", describe(c)), &cmd, &bounds(ctx.env), secs, &*judge);
    });
    // sizes
    let mut jobs = vec![];
    for d in gen::ladder(if env.quick() { 1025 } else { 20_000 }) {
        let ds: Vec<String> = (0..d + 3).map(|i| if i % 2 == 0 { "a".into() } else { format!("b a d{i}") }).collect();
        let c = vec![file(&ds.iter().map(|s| s.as_str()).collect::<Vec<_>>()), file(&["a"])];
        for lim in [d, d + 2, d + 3, d + 4, usize::MAX / 2, usize::MAX] {
            jobs.push((c.clone(), lim));
        }
    }
    env.par("sizes", &jobs, |ctx, (c, lim)| {
        let paths = ctx.env.corpus(c);
        for (i, w) in ALL.iter().enumerate() {
            let (mut cmd, j) = make(ctx.env, *w, c, &paths, *lim, 1 + i % 2, i % 2 == 0);
            cmd.free_running = true;
            if *w == W::Unique {
                // a larger table for larger corpora
                for a in cmd.args.iter_mut() {
                    if a == "4KiB" {
                        *a = "16MiB".into();
                    }
                }
                if cut(c, *lim)[0].docs.len() > 300 {
                    continue;
                }
            }
            if (*w == W::Topk || *w == W::Botk) && cut(c, *lim)[0].docs.len() > 700 {
                continue;
            }
            ctx.eval(&format!("{w:?} limit {lim} of {} lines", c[0].docs.len()), &cmd, &*j);
        }
    });
}
