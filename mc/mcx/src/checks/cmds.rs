//! The six commands (search in two flavours) with one fixed question each, for checks that are
//! about all commands alike.
use super::*;
use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum W {
    Topk,
    Botk,
    Count,
    Search,
    Locate,
    Stats,
    Unique,
}
pub const ALL: [W; 7] = [W::Topk, W::Botk, W::Count, W::Search, W::Locate, W::Stats, W::Unique];
/// Those with --out.
pub const WITH_OUT: [W; 6] = [W::Topk, W::Botk, W::Count, W::Search, W::Locate, W::Stats];

pub type JudgeStr = Box<dyn Fn(&str) -> Check + Send + Sync>;

#[derive(Clone, Debug)]
pub struct R {
    pub w: W,
    pub j: usize,
    pub quiet: bool,
    pub json: bool,
    pub limit: Option<usize>,
    pub out: Option<String>,
    pub force: bool,
    pub n: usize,
    pub cap: u32,
    pub chunk: u32,
    pub policy: u32,
    pub free: bool,
    pub extra: Vec<String>,
}

impl R {
    pub fn new(w: W) -> R {
        R { w, j: 1, quiet: false, json: true, limit: None, out: None, force: false, n: 1, cap: 0, chunk: 0, policy: 0, free: false, extra: vec![] }
    }
    pub fn j(mut self, j: usize) -> R {
        self.j = j;
        self
    }
    pub fn out(mut self, o: &str) -> R {
        self.out = Some(o.into());
        self
    }
    pub fn limit(mut self, l: usize) -> R {
        self.limit = Some(l);
        self
    }
    /// How results are asked for: --json, readable, -q --json, --out and -q, --out and --json, --out alone.
    pub fn mode(mut self, m: usize, out: &str) -> R {
        let m = if self.w == W::Unique { m % 3 } else { m % 6 };
        self.json = matches!(m, 0 | 2 | 4);
        self.quiet = matches!(m, 2 | 3);
        if m >= 3 {
            self.out = Some(out.to_string());
        }
        self
    }
    pub fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let mut add = |xs: &[&str]| a.extend(xs.iter().map(|s| s.to_string()));
        let n = self.n.to_string();
        match self.w {
            W::Topk => add(&["topk", "-n", &n, "-k", "5", "--size", "64KiB", "-h", "2", "--seed", "1", "--threshold", "0"]),
            W::Botk => add(&["botk", "-n", &n, "-k", "5", "--size", "64KiB", "-h", "2", "--seed", "1"]),
            W::Count => add(&["count", "-s", "a", "-s", "b a"]),
            W::Search => add(&["search", "-p", "a", "-p", "b"]),
            W::Locate => add(&["search", "-p", "a", "-p", "b", "--with-locations"]),
            W::Stats => add(&["stats"]),
            W::Unique => add(&["unique", "-n", &n, "--size", "4KiB", "-h", "2", "--seed", "3"]),
        }
        let j = self.j.to_string();
        add(&["-j", &j]);
        if self.quiet {
            add(&["-q"]);
        }
        if self.json {
            add(&["--json"]);
        }
        if let Some(l) = self.limit {
            add(&["-l", &l.to_string()]);
        }
        if let Some(o) = &self.out {
            add(&["-o", o]);
        }
        if self.force {
            add(&["-f"]);
        }
        a.extend(self.extra.iter().cloned());
        a.push("--".into());
        a
    }
    pub fn cmd(&self, env: &Env, paths: &[String]) -> Cmd {
        let mut c = env.cmd(&[], &[]);
        c.args = self.args();
        c.args.extend(paths.iter().cloned());
        c.policy = self.policy;
        // the final pass over the table of `unique` has one step per slot
        c.free_running = self.free || (self.w == W::Unique && self.j <= 1);
        c.cap = self.cap;
        c.read_chunk = self.chunk;
        c
    }
    /// What the JSON lines have to say.
    pub fn judge(&self, c: &Corpus, names: &[String]) -> JudgeStr {
        let c = match self.limit {
            Some(l) => cut(c, l),
            None => c.clone(),
        };
        let names = names.to_vec();
        match self.w {
            W::Topk => {
                let w = topk(&c, self.n, 5, 0);
                Box::new(move |s| judge_ranked(s, &w))
            }
            W::Botk => {
                let w = botk(&c, self.n, 5, u32::MAX as u64);
                Box::new(move |s| judge_ranked(s, &w))
            }
            W::Count => {
                let w = count(&c, &["a", "b a"]);
                Box::new(move |s| judge_count(s, &w))
            }
            W::Search => {
                let w = search(&c, &["a", "b"]);
                Box::new(move |s| judge_search_counts(s, &w))
            }
            W::Locate => {
                let w = search(&c, &["a", "b"]);
                Box::new(move |s| {
                    judge_search_counts(s, &w)?;
                    judge_locations(s, &w, &names, None)
                })
            }
            W::Stats => {
                let w = stats(&c);
                Box::new(move |s| judge_stats(s, &w, &names, true, true))
            }
            W::Unique => {
                let w = ngram_counts(&c, self.n).len() as u64;
                Box::new(move |s| {
                    let l = lines(s)?;
                    match l.first().and_then(|v| v.get("unique_count")).and_then(|v| v.as_u64()) {
                        Some(v) if v == w && l.len() == 1 => Ok(()),
                        _ => Err(format!("reported {s:?}, there are {w} distinct tokens")),
                    }
                })
            }
        }
    }
    pub fn judge_out(&self, c: &Corpus, names: &[String]) -> super::plain::Judge {
        let j = self.judge(c, names);
        Box::new(move |o| j(&ok_out(o)?))
    }
    pub fn label(&self) -> String {
        format!(
            "{:?} j={} q={} json={} l={:?} out={} n={} cap={} chunk={}",
            self.w,
            self.j,
            self.quiet,
            self.json,
            self.limit,
            self.out.is_some(),
            self.n,
            self.cap,
            self.chunk
        )
    }
}

/// An output file after a failure must hold no results.
pub fn no_results(p: &std::path::Path) -> Check {
    match std::fs::read(p) {
        Ok(b) if !b.is_empty() => Err(format!("the run failed but its output file holds {:?}", clip(&String::from_utf8_lossy(&b)))),
        _ => Ok(()),
    }
}
