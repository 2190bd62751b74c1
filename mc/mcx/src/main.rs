#![allow(dead_code)]
#[path = "../../mcstd/src/proto.rs"]
mod proto;
mod checks;
mod dpor;
mod gen;
mod model;
mod selftest;
mod server;
mod work;
use std::path::{Path, PathBuf};
use std::time::Duration;

fn usage() -> ! {
    eprintln!("mcx check ID --tier quick|thorough --seed N --bins DIR --verif DIR [--no-api] [--passthrough]\nmcx replay FILE --bins DIR\nmcx run BOUND|- CAP -- ARGS...");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let flag = |n: &str| a.iter().any(|x| x == n);
    let bins = PathBuf::from(opt("--bins").unwrap_or("/verif/mc/target/release".into()));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_else(|| usage());
            let tier = if opt("--tier").as_deref() == Some("thorough") { work::Tier::Thorough } else { work::Tier::Quick };
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let verif = PathBuf::from(opt("--verif").unwrap_or("/verif".into()));
            let mut env = work::Env::new(&id, tier, seed, &bins, !flag("--no-api"), !flag("--passthrough"), &verif);
            if let Some(b) = opt("--budget").and_then(|s| s.parse().ok()) {
                env.budget = Duration::from_secs(b);
            }
            match checks::run(&env) {
                Some((level, rule, assumptions)) => std::process::exit(env.finish(level, rule, &assumptions)),
                None => {
                    let _ = std::fs::remove_dir_all(&env.scratch);
                    eprintln!("no check {id}");
                    std::process::exit(2)
                }
            }
        }
        Some("replay") => replay(Path::new(a.get(2).unwrap_or_else(|| usage())), &bins),
        Some("selftest") => std::process::exit(selftest::main(&a, &bins)),
        Some("run") => run(&a, &bins),
        _ => usage(),
    }
}

/// Re-run a recorded violation and show what happens.
fn replay(p: &Path, bins: &Path) {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(p).expect("read replay file")).expect("replay file");
    let dir = PathBuf::from(format!("/tmp/mcx-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for (n, h) in v["files_hex"].as_object().unwrap() {
        let f = dir.join(n);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, work::unhex(h.as_str().unwrap())).unwrap();
    }
    let u = |k: &str| v[k].as_u64().unwrap_or(0);
    let mut cmd = server::Cmd::new(&dir, &[]);
    cmd.args = v["args"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    cmd.seed = u("ambient_seed");
    cmd.cap = u("cap") as u32;
    cmd.policy = u("policy") as u32;
    cmd.weak_fails = u("weak_fails") as u32;
    cmd.read_chunk = u("read_chunk") as u32;
    cmd.max_steps = u("max_steps") as u32;
    cmd.free_running = v["free_running"].as_bool().unwrap_or(false);
    cmd.tracked = v["tracked"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    for f in v["faults"].as_array().unwrap() {
        let g = |i: usize| f[i].as_i64().unwrap();
        cmd.faults.push(proto::Fault { class: g(0) as u8, track: g(1) as u8, sticky: g(2) as u8, nth: g(3) as u32, action: g(4) as i32 });
    }
    let sched: Vec<u8> = v["schedule"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let mut s = server::Server::new(&bins.join(v["binary"].as_str().unwrap_or("wimbd")));
    let o = s.run(&cmd, if cmd.free_running { &[] } else { &sched });
    println!("recorded: {}", v["what"].as_str().unwrap_or(""));
    println!("args: {:?}\nexit code {} (scheduler status {} {})\n--- stdout\n{}--- stderr\n{}", cmd.args, o.code, o.status, o.msg, o.out(), o.err());
    for r in &o.recs {
        println!("T{} {}{} object {}", r.tid, if r.cont != 0 { "+ " } else { "" }, proto::KIND_NAMES[r.kind as usize], r.obj);
    }
    if let Some(h) = o.hang() {
        println!("{h}");
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Explore one command by hand.
fn run(a: &[String], bins: &Path) {
    let i = a.iter().position(|x| x == "--").unwrap_or_else(|| usage());
    let bound = a[2].parse::<u32>().ok();
    let args: Vec<&str> = a[i + 1..].iter().map(|s| s.as_str()).collect();
    let mut cmd = server::Cmd::new(&std::env::current_dir().unwrap(), &args);
    cmd.cap = a[3].parse().unwrap();
    let bin = std::env::var("SUBJ").unwrap_or("wimbd".into());
    let mut s = server::Server::new(&bins.join(bin));
    let o = dpor::Opts { bound, max_execs: u64::MAX, max_time: Duration::from_secs(60), stop_at_first: true, stop: &std::sync::atomic::AtomicBool::new(false), brute: false };
    let mut outs = std::collections::HashMap::new();
    let mut first = true;
    let t = std::time::Instant::now();
    let r = dpor::explore(&mut s, &cmd, &o, &mut || (), |o| {
        if first {
            first = false;
            eprintln!("steps {} th {} status {} code {}\n{}{}", o.steps(), o.nthreads, o.status, o.code, o.out(), o.err());
            if std::env::var("DUMP").is_ok() {
                for r in &o.recs {
                    eprintln!("{} {} {} obj {} en {:x} low {:x} st {:x} aux {} code {}", r.tid, r.cont, proto::KIND_NAMES[r.kind as usize], r.obj, r.enabled, r.low, r.stut, r.aux, r.code);
                }
            }
        }
        *outs.entry((o.status, o.code, o.out(), o.hang())).or_insert(0u64) += 1;
        Ok(())
    });
    let el = t.elapsed().as_secs_f64();
    match r {
        Ok(st) => println!("execs {} redundant {} steps {} states {} complete {} maxsteps {} {:.1}s {:.0}/s", st.execs, st.redundant, st.steps, st.states.len(), st.complete, st.max_steps, el, st.execs as f64 / el),
        Err(e) => println!("ERR {e} {el:.1}s"),
    }
    let mut v: Vec<_> = outs.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (k, n) in v.iter().take(12) {
        println!("{n} x {k:?}");
    }
}
