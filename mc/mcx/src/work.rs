//! Plumbing shared by all checks: scratch files, parallel evaluation on fork servers, confirmation
//! and reporting of violations, evidence.
use crate::dpor;
use crate::model::{Corpus, File};
use crate::proto::*;
use crate::server::{Cmd, Outcome, Server};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Report {
    pub violations: Vec<Value>,
    pub known: Vec<String>,
    pub unconfirmed: Vec<String>,
    pub notes: Vec<String>,
    pub samples: Vec<Value>,
    pub sections: Vec<Value>,
    pub distinct: HashSet<u64>,
    pub states: u64,
    pub state_set: HashSet<u64>,
    pub max_depth: u64,
    pub incomplete: u64,
    pub explorations: u64,
    /// the machinery itself is at fault: no verdict
    pub broken: Option<String>,
}

pub struct Env {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub bins: PathBuf,
    pub api: bool,
    pub controlled: bool,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub t0: Instant,
    pub budget: Duration,
    pub threads: usize,
    pub rep: Mutex<Report>,
    pub stop: AtomicBool,
    /// the scheduler met something it does not control: real threads from here on
    pub degraded: AtomicBool,
    pub evals: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub known: Vec<(String, String)>, // (label prefix, description)
    store: Mutex<HashMap<(u64, String), String>>,
    next_name: AtomicUsize,
}

pub struct Ctx<'a> {
    pub env: &'a Env,
    pub srv: Server,
    pub api: Option<Server>,
    pub worker: usize,
    label: String,
}

pub type Check = Result<(), String>;

pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 29)
}

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// Exit status, standard output etc. of a run that has to succeed.
pub fn ok_out(o: &Outcome) -> Result<String, String> {
    if let Some(h) = o.hang() {
        return Err(h);
    }
    if !o.ended() {
        return Err(format!("the program died: {} {}", o.code, tail(&o.err())));
    }
    if o.code != 0 {
        return Err(format!("exit status {} on valid input: {}", o.code, tail(&o.err())));
    }
    String::from_utf8(o.stdout.clone()).map_err(|_| "output is not UTF-8".to_string())
}

/// A run that has to fail cleanly: an error status and nothing on standard output.
pub fn must_fail(o: &Outcome) -> Check {
    if let Some(h) = o.hang() {
        return Err(h);
    }
    if o.code == 0 {
        return Err(format!("exit status 0 although it has to fail; printed {:?}", clip(&o.out())));
    }
    if !o.stdout.is_empty() {
        return Err(format!("failed (status {}) but printed a result: {:?}", o.code, clip(&o.out())));
    }
    Ok(())
}

pub fn clip(s: &str) -> String {
    if s.len() > 400 {
        let mut e = 400;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s.to_string()
    }
}

pub fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().collect();
    clip(&l[l.len().saturating_sub(3)..].join(" | "))
}

impl Env {
    pub fn new(id: &str, tier: Tier, seed: u64, bins: &Path, api: bool, controlled: bool, verif: &Path) -> Env {
        let base = if Path::new("/dev/shm").is_dir() && std::fs::write(format!("/dev/shm/.mcx-{}", std::process::id()), b"x").is_ok() {
            let _ = std::fs::remove_file(format!("/dev/shm/.mcx-{}", std::process::id()));
            "/dev/shm"
        } else {
            "/tmp"
        };
        let scratch = PathBuf::from(format!("{base}/mcx-{}-{}", id, std::process::id()));
        std::fs::create_dir_all(scratch.join("f")).unwrap();
        let known = read_known(verif, id);
        Env {
            id: id.to_string(),
            tier,
            seed,
            bins: bins.to_path_buf(),
            api,
            controlled,
            verif: verif.to_path_buf(),
            scratch,
            t0: Instant::now(),
            budget: Duration::from_secs(if tier == Tier::Quick { 100 } else { 780 }),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            rep: Mutex::new(Report::default()),
            stop: AtomicBool::new(false),
            degraded: AtomicBool::new(!controlled),
            evals: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            known,
            store: Mutex::new(HashMap::new()),
            next_name: AtomicUsize::new(0),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn left(&self) -> Duration {
        self.budget.saturating_sub(self.t0.elapsed())
    }
    pub fn over(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || self.t0.elapsed() >= self.budget
    }
    pub fn note(&self, s: impl ToString) {
        let mut r = self.rep.lock().unwrap();
        let s = s.to_string();
        if r.notes.len() < 60 && !r.notes.contains(&s) {
            r.notes.push(s);
        }
    }
    pub fn section(&self, v: Value) {
        self.rep.lock().unwrap().sections.push(v);
    }
    pub fn sample(&self, v: Value) {
        let mut r = self.rep.lock().unwrap();
        if r.samples.len() < 12 {
            r.samples.push(v);
        }
    }
    pub fn distinct(&self, key: &str) {
        self.rep.lock().unwrap().distinct.insert(hash64(key.as_bytes()));
    }

    /// Write bytes below the scratch directory under a name of our choice; returns the relative path.
    pub fn put_raw(&self, name: &str, data: &[u8]) -> String {
        let p = self.scratch.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(&p, data).unwrap();
        name.to_string()
    }
    /// A gzip file holding these lines, named by content and position (so that the files of one
    /// corpus are distinct paths and equal corpora share files).
    pub fn put_bytes(&self, data: &[u8], pos: &str) -> String {
        let key = (hash64(data), pos.to_string());
        let mut st = self.store.lock().unwrap();
        if let Some(n) = st.get(&key) {
            return n.clone();
        }
        let name = format!("f/{}-{:x}.json.gz", pos, self.next_name.fetch_add(1, Ordering::Relaxed));
        std::fs::write(self.scratch.join(&name), gz(data)).unwrap();
        st.insert(key, name.clone());
        name
    }
    /// A file with exactly these bytes.
    pub fn put_exact(&self, data: &[u8], pos: &str) -> String {
        let key = (hash64(data), format!("exact {pos}"));
        let mut st = self.store.lock().unwrap();
        if let Some(n) = st.get(&key) {
            return n.clone();
        }
        let name = format!("f/{}-{:x}.json.gz", pos, self.next_name.fetch_add(1, Ordering::Relaxed));
        std::fs::write(self.scratch.join(&name), data).unwrap();
        st.insert(key, name.clone());
        name
    }
    pub fn put(&self, f: &File, pos: usize) -> String {
        let mut b = Vec::new();
        for d in &f.docs {
            b.extend_from_slice(d.line().as_bytes());
        }
        self.put_bytes(&b, &format!("p{pos}"))
    }
    pub fn corpus(&self, c: &Corpus) -> Vec<String> {
        c.iter().enumerate().map(|(i, f)| self.put(f, i)).collect()
    }

    pub fn cmd(&self, args: &[&str], paths: &[String]) -> Cmd {
        let mut c = Cmd::new(&self.scratch, args);
        for p in paths {
            c.args.push(p.clone());
        }
        c.seed = self.seed;
        c
    }

    /// Run `f` on every item, in order of dispatch, on all fork servers.
    pub fn par<T: Sync, F: Fn(&mut Ctx, &T) + Sync>(&self, name: &str, items: &[T], f: F) -> bool {
        let t = Instant::now();
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let e0 = self.evals.load(Ordering::Relaxed);
        std::thread::scope(|s| {
            for w in 0..self.threads.min(items.len().max(1)) {
                let (next, done, f) = (&next, &done, &f);
                s.spawn(move || {
                    let mut ctx = Ctx {
                        env: self,
                        srv: Server::new(&self.bins.join("wimbd")),
                        api: None,
                        worker: w,
                        label: String::new(),
                    };
                    loop {
                        if self.over() {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        f(&mut ctx, &items[i]);
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                });
            }
        });
        let all = done.load(Ordering::Relaxed) == items.len();
        self.section(json!({
            "part": name, "items": items.len(), "items_done": done.load(Ordering::Relaxed), "complete": all,
            "executions": self.evals.load(Ordering::Relaxed) - e0, "seconds": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        if !all && !self.stop.load(Ordering::Relaxed) {
            self.rep.lock().unwrap().incomplete += 1;
        }
        all
    }

    pub fn violation(&self, label: &str, what: &str, cmd: &Cmd, schedule: &[u8], o: Option<&Outcome>, api: bool) {
        if let Some((_, d)) = self.known.iter().find(|(k, _)| label.starts_with(k.as_str())) {
            let mut r = self.rep.lock().unwrap();
            if !r.known.contains(d) {
                r.known.push(d.clone());
            }
            return;
        }
        let mut r = self.rep.lock().unwrap();
        if r.violations.len() >= 3 {
            return;
        }
        let n = r.violations.len();
        let dir = self.verif.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.json", self.id, n));
        let mut files = serde_json::Map::new();
        for a in &cmd.args {
            collect(&cmd.cwd, Path::new(a), &mut files);
        }
        let v = json!({
            "property": self.id, "label": label, "what": what, "binary": if api { "apih" } else { "wimbd" },
            "args": cmd.args, "ambient_seed": cmd.seed, "cap": cmd.cap, "policy": cmd.policy, "read_chunk": cmd.read_chunk, "weak_fails": cmd.weak_fails,
            "free_running": cmd.free_running, "max_steps": cmd.max_steps, "tracked": cmd.tracked,
            "faults": cmd.faults.iter().map(|f| json!([f.class, f.track, f.sticky, f.nth, f.action])).collect::<Vec<_>>(),
            "schedule": schedule, "files_hex": files,
            "exit_code": o.map(|o| o.code), "stdout": o.map(|o| clip(&o.out())), "stderr": o.map(|o| clip(&o.err())),
        });
        let _ = std::fs::write(&p, serde_json::to_vec_pretty(&v).unwrap());
        println!("VIOLATION property={} replay={}", self.id, p.display());
        println!("  case: {label}");
        println!("  args: {}", clip(&cmd.args.join(" ")));
        println!("  what: {}", clip(what));
        r.violations.push(json!({"label": label, "what": clip(what), "replay": p.display().to_string()}));
        if r.violations.len() >= 2 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let mut r = self.rep.lock().unwrap();
        let r = &mut *r;
        let evals = self.evals.load(Ordering::Relaxed);
        if r.samples.is_empty() {
            r.samples.push(json!("none"));
        }
        r.states += r.state_set.len() as u64;
        let cov = json!({
            "evaluations": evals,
            "distinct_nontrivial": r.distinct.len(),
            "rule": rule,
            "samples": r.samples,
            "states": r.states,
            "transitions": self.transitions.load(Ordering::Relaxed),
            "traces_validated_against_impl": self.validated.load(Ordering::Relaxed),
            "exhaustive": r.incomplete == 0 && r.unconfirmed.is_empty(),
            "schedule_explorations": r.explorations,
            "max_steps_of_one_execution": r.max_depth,
            "parts": r.sections,
            "parts_or_explorations_cut_by_time": r.incomplete,
            "unconfirmed": r.unconfirmed,
            "notes": r.notes,
            "known_findings_seen": r.known,
            "mode": if self.controlled && !self.degraded.load(Ordering::Relaxed) { "controlled" } else { "real threads (schedules not controlled)" },
        });
        let ev = json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": (self.t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": r.violations.len(),
        });
        let _ = std::fs::create_dir_all(self.verif.join("evidence"));
        std::fs::write(self.verif.join("evidence").join(format!("{}.json", self.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
        for k in &r.known {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        println!(
            "{} {}: {} executions, {} transitions, {} states, {} violations, {:.1}s{}",
            self.id,
            if self.quick() { "quick" } else { "thorough" },
            evals,
            self.transitions.load(Ordering::Relaxed),
            r.states,
            r.violations.len(),
            self.t0.elapsed().as_secs_f64(),
            if r.incomplete > 0 { format!(" ({} parts cut by time)", r.incomplete) } else { String::new() }
        );
        for n in &r.notes {
            println!("  note: {n}");
        }
        for n in &r.unconfirmed {
            println!("  unconfirmed: {n}");
        }
        let _ = std::fs::remove_dir_all(&self.scratch);
        if let (true, Some(b)) = (r.violations.is_empty(), &r.broken) {
            println!("no verdict: {b}");
            return 4;
        }
        (!r.violations.is_empty()) as i32
    }

    /// Compare the explorer with brute force on small programs; refuse a verdict if they differ.
    pub fn selftest(&self) {
        if !self.controlled {
            return;
        }
        let t = Instant::now();
        let q = self.quick();
        let mut progs: Vec<String> = crate::selftest::CURATED.iter().map(|s| s.to_string()).collect();
        if !q {
            progs.extend(crate::selftest::all(crate::selftest::ALPHABET, &[1, 1]));
        }
        let bounds = [None, Some(1), Some(2)];
        let (each, secs) = if q { (0.3, 15) } else { (5.0, 120) };
        let r = crate::selftest::run(&self.bins, &progs, &bounds, &["1"], each, Duration::from_secs(secs), self.threads);
        let n = |a: &AtomicU64| a.load(Ordering::Relaxed);
        let bad = r.bad.lock().unwrap();
        self.section(json!({
            "part": "explorer self-test against brute force", "programs": r.programs.load(Ordering::Relaxed),
            "too_large_for_brute_force_in_the_time": r.skipped.load(Ordering::Relaxed), "executions_with_reduction": n(&r.reduced),
            "executions_without": n(&r.brute), "disagreements": bad.len(), "complete": true, "seconds": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        if let Some(b) = bad.first() {
            self.rep.lock().unwrap().broken = Some(format!("the explorer disagrees with brute force: {b}"));
        }
    }
}

fn collect(cwd: &Path, p: &Path, out: &mut serde_json::Map<String, Value>) {
    if p.as_os_str().is_empty() {
        return;
    }
    let full = cwd.join(p);
    let md = match std::fs::metadata(&full) {
        Ok(m) => m,
        Err(_) => return,
    };
    if md.is_file() && md.len() < 1 << 20 && out.len() < 400 {
        if let Ok(b) = std::fs::read(&full) {
            out.insert(p.display().to_string(), json!(hex(&b)));
        }
    } else if md.is_dir() && out.len() < 400 {
        if let Ok(rd) = std::fs::read_dir(&full) {
            for e in rd.flatten() {
                collect(cwd, &p.join(e.file_name()), out);
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn read_known(verif: &Path, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
        for l in s.lines() {
            // known: property=<id> case=<label prefix> :: <what fails>
            if let Some(r) = l.strip_prefix(&format!("known: property={id} case=")) {
                if let Some((k, d)) = r.split_once(" :: ") {
                    v.push((k.to_string(), d.to_string()));
                }
            }
        }
    }
    v
}

impl<'a> Ctx<'a> {
    fn server(&mut self, api: bool) -> &mut Server {
        if api {
            let env = self.env;
            self.api.get_or_insert_with(|| Server::new(&env.bins.join("apih")))
        } else {
            &mut self.srv
        }
    }

    fn run1(&mut self, cmd: &Cmd, prefix: &[u8], api: bool) -> Outcome {
        let mut forced;
        let cmd = if self.env.degraded.load(Ordering::Relaxed) && !cmd.free_running {
            forced = cmd.clone();
            forced.free_running = true;
            &forced
        } else {
            cmd
        };
        let prefix = if cmd.free_running { &[] } else { prefix };
        let o = self.server(api).run(cmd, prefix);
        self.env.evals.fetch_add(1, Ordering::Relaxed);
        self.env.transitions.fetch_add(o.steps() as u64, Ordering::Relaxed);
        if cmd.free_running || !(o.status == ST_HORIZON || o.status == ST_INTERNAL || o.timed_out) {
            return o;
        }
        if o.timed_out {
            // blocked in something the scheduler does not see, or busy for ever: real threads decide
            self.env.degraded.store(true, Ordering::Relaxed);
        }
        // too long for the controlled scheduler (or beyond its means): let it run freely
        self.env.note(format!("run freely: {} {}", if o.status == ST_HORIZON { "step horizon" } else { "runtime" }, o.msg));
        let mut c = cmd.clone();
        c.free_running = true;
        let o = self.server(api).run(&c, &[]);
        self.env.evals.fetch_add(1, Ordering::Relaxed);
        o
    }

    pub fn run(&mut self, cmd: &Cmd) -> Outcome {
        self.run1(cmd, &[], false)
    }
    pub fn run_api(&mut self, cmd: &Cmd) -> Outcome {
        self.run1(cmd, &[], true)
    }

    /// One execution under the default schedule, judged.
    pub fn eval(&mut self, label: &str, cmd: &Cmd, judge: &dyn Fn(&Outcome) -> Check) -> bool {
        self.eval_prep(label, cmd, &|| (), judge)
    }
    pub fn eval_prep(&mut self, label: &str, cmd: &Cmd, prep: &dyn Fn(), judge: &dyn Fn(&Outcome) -> Check) -> bool {
        self.eval_any(label, cmd, prep, judge, false)
    }
    pub fn eval_api(&mut self, label: &str, cmd: &Cmd, judge: &dyn Fn(&Outcome) -> Check) -> bool {
        self.eval_any(label, cmd, &|| (), judge, true)
    }
    fn eval_any(&mut self, label: &str, cmd: &Cmd, prep: &dyn Fn(), judge: &dyn Fn(&Outcome) -> Check, api: bool) -> bool {
        prep();
        let o = self.run1(cmd, &[], api);
        match judge(&o) {
            Ok(()) => true,
            Err(what) => {
                // must fail again, twice
                for _ in 0..2 {
                    prep();
                    let o2 = self.run1(cmd, &[], api);
                    if judge(&o2).is_ok() {
                        if !cmd.free_running {
                            self.env.rep.lock().unwrap().unconfirmed.push(format!("{label}: {}", clip(&what)));
                            return false;
                        }
                        // real threads: an outcome that was seen is an outcome
                    }
                }
                self.env.violation(label, &what, cmd, &o.schedule(), Some(&o), api);
                false
            }
        }
    }

    /// All schedules of one command (up to equivalence; up to `bound` deviations if given).
    pub fn explore(&mut self, label: &str, cmd: &Cmd, bound: Option<u32>, secs: f64, judge: &dyn Fn(&Outcome) -> Check) -> bool {
        self.explore_any(label, cmd, bound, secs, &|| (), judge, false)
    }
    pub fn explore_prep(
        &mut self,
        label: &str,
        cmd: &Cmd,
        bound: Option<u32>,
        secs: f64,
        prep: &dyn Fn(),
        judge: &dyn Fn(&Outcome) -> Check,
    ) -> bool {
        self.explore_any(label, cmd, bound, secs, prep, judge, false)
    }
    pub fn explore_api(&mut self, label: &str, cmd: &Cmd, bound: Option<u32>, secs: f64, judge: &dyn Fn(&Outcome) -> Check) -> bool {
        self.explore_any(label, cmd, bound, secs, &|| (), judge, true)
    }
    fn explore_any(
        &mut self,
        label: &str,
        cmd: &Cmd,
        bound: Option<u32>,
        secs: f64,
        prep: &dyn Fn(),
        judge: &dyn Fn(&Outcome) -> Check,
        api: bool,
    ) -> bool {
        if !self.env.controlled || self.env.degraded.load(Ordering::Relaxed) {
            return self.eval_any(label, cmd, prep, judge, api);
        }
        self.label = label.to_string();
        let max_time = Duration::from_secs_f64(secs).min(self.env.left());
        let opts = dpor::Opts { bound, max_execs: u64::MAX, max_time, stop_at_first: true, stop: &self.env.stop, brute: false };
        // determinism: the default execution twice must be the same execution
        prep();
        let a = self.run1(cmd, &[], api);
        prep();
        let b = self.run1(cmd, &a.schedule(), api);
        if a.status == ST_HORIZON || a.recs.len() != b.recs.len() || a.stdout != b.stdout || b.status == ST_DIVERGED {
            if a.schedule() == b.schedule() && a.recs.len() == b.recs.len() && b.status != ST_DIVERGED {
                // same execution, different output: judge both below
            } else {
                self.env.note(format!("{label}: execution is not reproducible, judged under the default schedule only"));
                return self.eval_any(label, cmd, prep, judge, api);
            }
        }
        self.env.validated.fetch_add(1, Ordering::Relaxed);
        let env = self.env;
        let t = Instant::now();
        let r = dpor::explore(self.server(api), cmd, &opts, &mut || prep(), |o| {
            if env.stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            judge(o)
        });
        match r {
            Ok(st) => {
                env.evals.fetch_add(st.execs, Ordering::Relaxed);
                env.transitions.fetch_add(st.steps, Ordering::Relaxed);
                let mut ok = true;
                for v in &st.violations {
                    ok = false;
                    let mut confirmed = true;
                    let mut last = None;
                    for _ in 0..2 {
                        prep();
                        let o = self.run1(cmd, &v.schedule, api);
                        env.validated.fetch_add(1, Ordering::Relaxed);
                        if judge(&o).is_ok() {
                            confirmed = false;
                        }
                        last = Some(o);
                    }
                    if confirmed {
                        env.violation(label, &format!("{} [schedule of {} steps, {} deviations]", v.what, v.schedule.len(), v.deviations), cmd, &v.schedule, last.as_ref(), api);
                    } else {
                        env.rep.lock().unwrap().unconfirmed.push(format!("{label}: {}", clip(&v.what)));
                    }
                }
                let mut rep = env.rep.lock().unwrap();
                rep.explorations += 1;
                rep.states += st.states.len() as u64;
                rep.max_depth = rep.max_depth.max(st.max_steps as u64);
                if !st.complete && st.violations.is_empty() {
                    rep.incomplete += 1;
                }
                let lab = hash64(label.as_bytes());
                for h in st.outcomes.keys() {
                    rep.distinct.insert(h ^ lab);
                }
                rep.sections.push(json!({
                    "exploration": label, "bound": bound, "executions": st.execs, "redundant": st.redundant, "states": st.states.len(),
                    "transitions": st.steps, "longest": st.max_steps, "threads": st.max_threads, "complete": st.complete,
                    "distinct_outcomes": st.outcomes.len(), "seconds": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
                }));
                if rep.samples.len() < 12 {
                    let s: Vec<u8> = a.schedule();
                    rep.samples.push(json!({"case": label, "args": cmd.args, "default_schedule": run_lengths(&s), "executions": st.execs}));
                }
                ok
            }
            Err(e) => {
                env.note(format!("{label}: exploration stopped: {e}"));
                env.rep.lock().unwrap().incomplete += 1;
                true
            }
        }
    }

    /// Explore with growing deviation bounds until the time is used up.
    pub fn deepen(&mut self, label: &str, cmd: &Cmd, bounds: &[Option<u32>], secs: f64, judge: &dyn Fn(&Outcome) -> Check) -> bool {
        let secs = if self.env.quick() { secs * 2.0 } else { secs };
        let t = Instant::now();
        for b in bounds {
            let left = secs - t.elapsed().as_secs_f64();
            if left <= 0.2 || self.env.over() {
                break;
            }
            let l = match b {
                Some(k) => format!("{label} [bound {k}]"),
                None => format!("{label} [all schedules]"),
            };
            if !self.explore(&l, cmd, *b, left, judge) {
                return false;
            }
        }
        true
    }
}

fn run_lengths(s: &[u8]) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let mut j = i;
        while j < s.len() && s[j] == s[i] {
            j += 1;
        }
        out += &format!("T{}*{} ", s[i], j - i);
        i = j;
        if out.len() > 300 {
            out += "...";
            break;
        }
    }
    out.trim_end().to_string()
}
