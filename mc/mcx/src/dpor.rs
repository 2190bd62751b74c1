//! Stateless exploration of all interleavings (up to equivalence, up to a bound on deviations) by
//! dynamic partial-order reduction over the recorded synchronization operations.
use crate::proto::*;
use crate::server::{Cmd, Outcome, Server};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Opts<'a> {
    /// None: all interleavings (sleep sets on). Some(k): at most k deviations (preemptions of a
    /// runnable thread, or letting time pass while another thread can run).
    pub bound: Option<u32>,
    pub max_execs: u64,
    pub max_time: Duration,
    pub stop_at_first: bool,
    /// give up when this becomes true
    pub stop: &'a AtomicBool,
    /// every interleaving, without any reduction (to test the reduction against)
    pub brute: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub execs: u64,
    pub redundant: u64,
    pub steps: u64,
    pub max_steps: usize,
    pub max_threads: u32,
    pub complete: bool,
    pub outcomes: HashMap<u64, u64>,
    pub states: HashSet<u64>,
    pub violations: Vec<Violation>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub schedule: Vec<u8>,
    pub deviations: u32,
}

type Op = (u8, u32, u32); // kind, obj, aux

#[derive(Clone, Debug)]
struct Step {
    tid: usize,
    enabled: u32,
    low: u32,
    stut: u32,
    ops: Vec<Op>,
}

struct Node {
    enabled: u32,
    low: u32,
    stut: u32,
    chosen: usize,
    backtrack: u32,
    done: u32,
    done_ops: Vec<(usize, Vec<Op>)>,
    sleep: Vec<(usize, Vec<Op>)>,
    sig: Op,
    cost: u32, // deviations of the choices before this node
}

fn steps_of(o: &Outcome) -> Vec<Step> {
    let mut v: Vec<Step> = Vec::with_capacity(o.recs.len());
    for r in &o.recs {
        let op = (r.kind, r.obj, r.aux);
        if r.cont != 0 {
            v.last_mut().unwrap().ops.push(op);
        } else {
            v.push(Step { tid: r.tid as usize, enabled: r.enabled, low: r.low, stut: r.stut, ops: vec![op] });
        }
    }
    v
}

/// (happens-before dependent, may race i.e. be co-enabled and not commute) for two operations on
/// the same object, `a` executed before `b`.
fn rel(a: u8, b: u8, b_aux: u32) -> (bool, bool) {
    use std::cmp::{max, min};
    let (x, y) = (min(a, b), max(a, b));
    if x == K_OTHER || y == K_OTHER || x == K_CVTIMEOUT || y == K_CVTIMEOUT {
        return (true, true);
    }
    match (x, y) {
        (K_START, K_LOAD) => (false, false),
        (K_START, _) => (true, false),
        (K_EXIT, K_LOAD) => (true, true),
        (K_EXIT, _) => (true, false),
        (K_JOIN, _) | (K_SPAWN, _) => (true, false),
        (K_LOAD, K_LOAD) => (false, false),
        (K_LOAD, K_WRITE) | (K_WRITE, K_WRITE) => (true, true),
        (K_LOCK, K_LOCK) => (true, true),
        (K_LOCK, K_UNLOCK) | (K_UNLOCK, K_UNLOCK) => (true, false),
        (K_LOCK, K_TRYLOCK) | (K_UNLOCK, K_TRYLOCK) | (K_TRYLOCK, K_TRYLOCK) => (true, true),
        (K_LOCK, K_RLOCK) => (true, true),
        (K_LOCK, K_RUNLOCK) | (K_UNLOCK, K_RLOCK) | (K_UNLOCK, K_RUNLOCK) => (true, false),
        (K_TRYLOCK, K_RLOCK) | (K_TRYLOCK, K_RUNLOCK) => (true, true),
        (K_RLOCK, K_RLOCK) | (K_RLOCK, K_RUNLOCK) | (K_RUNLOCK, K_RUNLOCK) => (false, false),
        (K_SEND, K_SEND) | (K_SEND, K_TRYSEND) | (K_TRYSEND, K_TRYSEND) => (true, true),
        (K_SEND, K_RECV) => (false, false), // matched pairs are handled separately
        (K_SEND, K_RECVNB) => (true, true),
        (K_RECV, K_TRYSEND) | (K_RECVNB, K_TRYSEND) => (true, true),
        (K_RECV, K_RECV) | (K_RECV, K_RECVNB) | (K_RECVNB, K_RECVNB) => (true, true),
        (K_SDROP, K_SDROP) | (K_SEND, K_SDROP) | (K_SDROP, K_TRYSEND) | (K_SDROP, K_RDROP) => (false, false),
        (K_RECV, K_SDROP) => (a == K_SDROP && b_aux == 0, false),
        (K_RECVNB, K_SDROP) => (true, true),
        (K_SEND, K_RDROP) | (K_RDROP, K_TRYSEND) => (true, true),
        (K_RECV, K_RDROP) | (K_RECVNB, K_RDROP) | (K_RDROP, K_RDROP) => (true, true),
        (K_CVWAIT, K_CVWAIT) | (K_CVWAIT, K_CVNOTIFY) | (K_CVNOTIFY, K_CVNOTIFY) => (true, true),
        (K_CVNOTIFY, K_CVWAKE) => (true, false),
        (K_CVWAIT, K_CVWAKE) | (K_CVWAKE, K_CVWAKE) => (true, false),
        (K_YIELD, K_YIELD) => (false, false),
        (K_PROCEXIT, _) | (_, K_PROCEXIT) => (false, false),
        _ => (true, true),
    }
}

fn ops_race(a: &[Op], b: &[Op]) -> bool {
    a.iter().any(|x| b.iter().any(|y| x.1 == y.1 && (rel(x.0, y.0, 1).1 || rel(y.0, x.0, 1).1)))
}

#[derive(Default)]
struct Chan {
    sends: Vec<usize>,
    recvs: Vec<usize>,
}

/// For each step from `from` on, the earlier steps it races with (immediately), as pairs (i, p):
/// thread p should be tried before step i.
fn races(steps: &[Step], pend: &[PendRec], nth: usize, from: usize, all: bool, mut f: impl FnMut(usize, usize, &dyn Fn(usize) -> bool)) {
    let n = steps.len();
    let mut clocks: Vec<u32> = vec![0; n * nth];
    let mut cur: Vec<u32> = vec![0; nth * nth];
    let mut acc: HashMap<u32, Vec<(u8, usize, usize)>> = HashMap::new();
    let mut chans: HashMap<u32, Chan> = HashMap::new();
    let mut cand: Vec<usize> = Vec::new();
    for j in 0..n {
        let st = &steps[j];
        let p = st.tid;
        let before: Vec<u32> = cur[p * nth..(p + 1) * nth].to_vec();
        let mut c = before.clone();
        cand.clear();
        for &(kind, obj, aux) in &st.ops {
            let list = acc.entry(obj).or_default();
            for &(k2, q, i) in list.iter() {
                let (hb, race) = rel(k2, kind, aux);
                // under a bound, a thread that blocks gives way for free: what unblocks it matters too
                let race = race || (all && hb && kind != K_START);
                if race && q != p && before[q] <= i as u32 {
                    cand.push(i);
                }
                if hb {
                    for t in 0..nth {
                        c[t] = c[t].max(clocks[i * nth + t]);
                    }
                }
            }
            match kind {
                K_SEND | K_TRYSEND => {
                    let ch = chans.entry(obj).or_default();
                    let s = ch.sends.len();
                    if kind == K_SEND && aux > 0 && s >= aux as usize {
                        if let Some(&i) = ch.recvs.get(s - aux as usize) {
                            if all && steps[i].tid != p && before[steps[i].tid] <= i as u32 {
                                cand.push(i);
                            }
                            for t in 0..nth {
                                c[t] = c[t].max(clocks[i * nth + t]);
                            }
                        }
                    }
                    ch.sends.push(j);
                }
                K_RECV | K_RECVNB if aux == 1 => {
                    let ch = chans.entry(obj).or_default();
                    if let Some(&i) = ch.sends.get(ch.recvs.len()) {
                        if all && steps[i].tid != p && before[steps[i].tid] <= i as u32 {
                            cand.push(i);
                        }
                        for t in 0..nth {
                            c[t] = c[t].max(clocks[i * nth + t]);
                        }
                    }
                    ch.recvs.push(j);
                }
                _ => {}
            }
            match list.iter_mut().find(|e| e.0 == kind && e.1 == p) {
                Some(e) => e.2 = j,
                None => list.push((kind, p, j)),
            }
        }
        c[p] = j as u32 + 1;
        clocks[j * nth..(j + 1) * nth].copy_from_slice(&c);
        cur[p * nth..(p + 1) * nth].copy_from_slice(&c);
        if j >= from && !cand.is_empty() {
            report(&mut cand, steps, &clocks, nth, p, all, &mut f, &before);
        }
    }
    for pr in pend {
        let p = pr.tid as usize;
        if p >= nth {
            continue;
        }
        let before: Vec<u32> = cur[p * nth..(p + 1) * nth].to_vec();
        cand.clear();
        if let Some(list) = acc.get(&pr.obj) {
            for &(k2, q, i) in list.iter() {
                let (hb, race) = rel(k2, pr.kind, 1);
                if (race || (all && hb)) && q != p && before[q] <= i as u32 {
                    cand.push(i);
                }
            }
        }
        if !cand.is_empty() {
            report(&mut cand, steps, &clocks, nth, p, all, &mut f, &before);
        }
    }
}

fn report(
    cand: &mut Vec<usize>,
    steps: &[Step],
    clocks: &[u32],
    nth: usize,
    p: usize,
    all: bool,
    f: &mut impl FnMut(usize, usize, &dyn Fn(usize) -> bool),
    before: &[u32],
) {
    cand.sort_unstable();
    cand.dedup();
    let maxi: Vec<usize> = cand
        .iter()
        .copied()
        .filter(|&i| {
            // an earlier race is found again once a later one has been reversed, if p can step in
            // there (and no bound forbids it)
            all || !cand.iter().any(|&k| k != i && clocks[k * nth + steps[i].tid] > i as u32 && steps[k].enabled >> p & 1 == 1)
        })
        .collect();
    for i in maxi {
        // threads with a step after i that happens before p's next step
        let firsts = |q: usize| -> bool {
            if q == p {
                return true;
            }
            before[q] > i as u32 + 1
        };
        f(i, p, &firsts);
    }
}

fn hash_of(o: &Outcome) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut add = |b: &[u8]| {
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    };
    add(&o.stdout);
    add(&o.code.to_ne_bytes());
    add(&o.status.to_ne_bytes());
    h
}

/// Hash of the equivalence class (trace) prefix states: per-object/per-thread operation histories.
fn state_hashes(steps: &[Step], out: &mut HashSet<u64>, from: usize) -> usize {
    // A state is identified by the multiset of per-thread program points plus, per object, the
    // order of conflicting operations: an incremental commutative hash of (thread, local index,
    // object versions seen).
    let mut ver: HashMap<u32, u64> = HashMap::new();
    let mut loc: HashMap<usize, u64> = HashMap::new();
    let mut h: u64 = 0;
    let mix = |mut z: u64| {
        z = z.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    };
    let mut added = 0;
    for (idx, st) in steps.iter().enumerate() {
        let l = loc.entry(st.tid).or_insert(mix(st.tid as u64 + 17));
        h = h.wrapping_sub(*l);
        for &(k, o, _) in &st.ops {
            let v = ver.entry(o).or_insert(0);
            *l = mix(*l ^ mix((k as u64) << 32 | o as u64) ^ *v);
            if k != K_LOAD && k != K_SDROP && k != K_YIELD {
                *v = mix(*v ^ *l);
            }
        }
        h = h.wrapping_add(*l);
        if idx + 1 >= from && out.insert(h) {
            added += 1;
        }
    }
    added
}

pub fn explore(
    srv: &mut Server,
    cmd: &Cmd,
    opts: &Opts,
    prep: &mut dyn FnMut(),
    mut check: impl FnMut(&Outcome) -> Result<(), String>,
) -> Result<Stats, String> {
    let mut stats = Stats::default();
    let mut nodes: Vec<Node> = Vec::new();
    let mut prefix: Vec<u8> = Vec::new();
    let t0 = Instant::now();
    let sleep_on = opts.bound.is_none() && !opts.brute;
    loop {
        prep();
        let o = srv.run(cmd, &prefix);
        stats.execs += 1;
        stats.steps += o.steps() as u64;
        stats.max_steps = stats.max_steps.max(o.steps());
        stats.max_threads = stats.max_threads.max(o.nthreads);
        if o.status == ST_DIVERGED {
            return Err(format!("replaying a schedule prefix diverged at step {} ({})", o.steps(), o.msg));
        }
        if o.status == ST_INTERNAL {
            return Err(format!("controlled runtime: {}", o.msg));
        }
        *stats.outcomes.entry(hash_of(&o)).or_insert(0) += 1;
        let steps = steps_of(&o);
        let nth = o.nthreads.max(1) as usize;
        let nth = steps.iter().map(|s| s.tid + 1).max().unwrap_or(1).max(nth);
        let from = prefix.len();
        if steps.len() < from {
            return Err(format!("execution ended after {} of {} prescribed steps", steps.len(), from));
        }
        // the replayed part must be what it was
        for i in 0..from.min(nodes.len()) {
            let last = i + 1 == from;
            if nodes[i].enabled != steps[i].enabled || (!last && nodes[i].sig != steps[i].ops[0]) {
                return Err(format!(
                    "nondeterminism: step {i} changed between executions: enabled {:#x} -> {:#x}, {:?} -> {:?}",
                    nodes[i].enabled, steps[i].enabled, nodes[i].sig, steps[i].ops[0]
                ));
            }
        }
        state_hashes(&steps, &mut stats.states, from);
        // extend
        if from > 0 {
            nodes[from - 1].sig = steps[from - 1].ops[0];
        }
        let mut cut = steps.len();
        for i in from..steps.len() {
            let (cost, sleep) = if i == 0 {
                (0, vec![])
            } else {
                let pn = &nodes[i - 1];
                let prev = if i >= 2 { Some(nodes[i - 2].chosen) } else { None };
                let cost = pn.cost + dev(prev, pn.enabled, pn.low, pn.chosen);
                let mut sl = Vec::new();
                if sleep_on {
                    let exec = &steps[i - 1].ops;
                    for (t, ops) in pn.sleep.iter().chain(pn.done_ops.iter()) {
                        if *t != pn.chosen && !ops_race(ops, exec) {
                            sl.push((*t, ops.clone()));
                        }
                    }
                }
                (cost, sl)
            };
            let st = &steps[i];
            if sleep.iter().any(|(t, _)| *t == st.tid) {
                // the default choice is covered elsewhere: another thread has to go first here
                cut = i;
                let slept: u32 = sleep.iter().fold(0, |m, (t, _)| m | 1 << t);
                let rest = st.enabled & !st.stut & !slept;
                stats.redundant += 1;
                if rest != 0 {
                    let normal = rest & !st.low;
                    let pick = if normal != 0 { normal } else { rest }.trailing_zeros();
                    nodes.push(Node {
                        enabled: st.enabled,
                        low: st.low,
                        stut: st.stut,
                        chosen: st.tid,
                        backtrack: 1 << pick,
                        done: 0,
                        done_ops: vec![],
                        sleep,
                        sig: st.ops[0],
                        cost,
                    });
                }
                break;
            }
            nodes.push(Node {
                enabled: st.enabled,
                low: st.low,
                stut: st.stut,
                chosen: st.tid,
                backtrack: if opts.brute { st.enabled } else { 1 << st.tid },
                done: 0,
                done_ops: vec![],
                sleep,
                sig: st.ops[0],
                cost,
            });
        }
        if let Err(what) = check(&o) {
            let devs = nodes.last().map(|n| n.cost).unwrap_or(0);
            stats.violations.push(Violation { what, schedule: steps.iter().map(|s| s.tid as u8).collect(), deviations: devs });
            if opts.stop_at_first {
                stats.complete = false;
                return Ok(stats);
            }
        }
        // race analysis
        let pend: &[PendRec] = if cut == steps.len() { &o.pend } else { &[] };
        if !opts.brute {
            let nodes = &mut nodes;
            let bounded = opts.bound.is_some();
            races(&steps[..cut], pend, nth, from.saturating_sub(1), bounded, |i, p, firsts| {
                add_backtrack(&mut nodes[i], p, bounded, firsts);
                if bounded {
                    // conservative points: the start of the current thread's block
                    let mut k = i;
                    while k > 0 && nodes[k - 1].chosen == nodes[i].chosen {
                        k -= 1;
                    }
                    if k != i {
                        let e = nodes[k].enabled;
                        if e >> p & 1 == 1 {
                            nodes[k].backtrack |= 1 << p;
                        } else {
                            nodes[k].backtrack |= e;
                        }
                    }
                }
            });
        }
        // choose the next branch
        let mut found = false;
        while let Some(nd) = nodes.last_mut() {
            nd.done |= 1 << nd.chosen;
            let depth = nodes.len() - 1;
            let prev = if depth > 0 { Some(nodes[depth - 1].chosen) } else { None };
            let nd = nodes.last_mut().unwrap();
            if sleep_on && !nd.done_ops.iter().any(|(t, _)| *t == nd.chosen) {
                // the operation the chosen thread performed here
                if let Some(st) = steps.get(depth) {
                    if st.tid == nd.chosen {
                        nd.done_ops.push((nd.chosen, st.ops.clone()));
                    }
                }
            }
            let slept: u32 = nd.sleep.iter().fold(0, |m, (t, _)| m | 1 << t);
            let mut cands = nd.backtrack & nd.enabled & !nd.stut & !nd.done & !slept;
            let mut pick = None;
            while cands != 0 {
                let t = cands.trailing_zeros() as usize;
                cands &= cands - 1;
                let cost = nd.cost + dev(prev, nd.enabled, nd.low, t);
                if opts.bound.map(|b| cost > b).unwrap_or(false) {
                    nd.done |= 1 << t;
                    continue;
                }
                pick = Some(t);
                break;
            }
            if let Some(t) = pick {
                nd.chosen = t;
                found = true;
                break;
            }
            nodes.pop();
        }
        if !found {
            stats.complete = true;
            return Ok(stats);
        }
        prefix = nodes.iter().map(|n| n.chosen as u8).collect();
        if stats.execs >= opts.max_execs || opts.stop.load(Relaxed) || t0.elapsed() >= opts.max_time {
            stats.complete = false;
            return Ok(stats);
        }
    }
}

fn add_backtrack(nd: &mut Node, p: usize, bounded: bool, firsts: &dyn Fn(usize) -> bool) {
    if bounded {
        nd.backtrack |= if nd.enabled >> p & 1 == 1 { 1 << p } else { nd.enabled };
        return;
    }
    let mut e = 0u32;
    for q in 0..32 {
        if nd.enabled >> q & 1 == 1 && firsts(q) {
            e |= 1 << q;
        }
    }
    let slept: u32 = nd.sleep.iter().fold(0, |m, (t, _)| m | 1 << t);
    if e == 0 {
        nd.backtrack |= nd.enabled;
    } else if e & (nd.backtrack | slept) != 0 {
        // something that starts such a trace is already scheduled (or covered) here
    } else if e >> p & 1 == 1 {
        nd.backtrack |= 1 << p;
    } else {
        nd.backtrack |= 1 << e.trailing_zeros();
    }
}

/// Is choosing t a deviation from the default, given the previously running thread?
pub fn dev(prev: Option<usize>, enabled: u32, low: u32, t: usize) -> u32 {
    let normal = enabled & !low;
    if low >> t & 1 == 1 && normal != 0 {
        return 1;
    }
    match prev {
        Some(p) if p != t && normal >> p & 1 == 1 => 1,
        _ => 0,
    }
}
