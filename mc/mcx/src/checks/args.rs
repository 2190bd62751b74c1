//! C23: invalid arguments are rejected cleanly, valid ones accepted and understood.
use super::cmds::*;
use super::*;
use crate::model::*;

/// Arguments of a command without those named.
fn base(w: W) -> Vec<(&'static str, Vec<&'static str>)> {
    match w {
        W::Topk => vec![("-n", vec!["1"]), ("-k", vec!["5"]), ("--size", vec!["64KiB"]), ("-h", vec!["2"]), ("--seed", vec!["1"])],
        W::Botk => vec![("-n", vec!["1"]), ("-k", vec!["5"]), ("--size", vec!["64KiB"]), ("-h", vec!["2"]), ("--seed", vec!["1"])],
        W::Unique => vec![("-n", vec!["1"]), ("--size", vec!["64B"]), ("-h", vec!["2"]), ("--seed", vec!["1"])],
        W::Count => vec![("-s", vec!["a"])],
        W::Search => vec![("-p", vec!["a"])],
        W::Locate => vec![("-p", vec!["a"]), ("--with-locations", vec![])],
        W::Stats => vec![],
    }
}

fn name(w: W) -> &'static str {
    match w {
        W::Topk => "topk",
        W::Botk => "botk",
        W::Unique => "unique",
        W::Count => "count",
        W::Search | W::Locate => "search",
        W::Stats => "stats",
    }
}

/// The base arguments with some options removed and others added.
fn build(w: W, without: &[&str], with: &[&str]) -> Vec<String> {
    let mut a = vec![name(w).to_string()];
    for (o, v) in base(w) {
        if !without.contains(&o) {
            a.push(o.into());
            a.extend(v.iter().map(|s| s.to_string()));
        }
    }
    a.extend(with.iter().map(|s| s.to_string()));
    a
}

/// Failed with a message, without a panic and without a result.
fn rejected(o: &Outcome) -> Check {
    must_fail(o)?;
    if !o.ended() || o.code >= 128 {
        return Err(format!("the program died: {} {}", o.code, tail(&o.err())));
    }
    let e = o.err();
    if e.contains("panicked at") || o.code == 101 {
        return Err(format!("panic: {}", tail(&e)));
    }
    if e.trim().is_empty() {
        return Err("no error message".into());
    }
    Ok(())
}

fn invalid(w: W) -> Vec<(String, Vec<String>, bool)> {
    // (what, arguments, input wanted)
    let mut v: Vec<(String, Vec<String>, bool)> = vec![];
    let mut add = |what: &str, without: &[&str], with: &[&str]| v.push((what.to_string(), build(w, without, with), true));
    let sized = matches!(w, W::Topk | W::Botk | W::Unique);
    if sized {
        for (o, l) in [("-n", "--ngram"), ("-h", "--hashes")] {
            for bad in ["0", "00", "-1", "x", "", "1.5", "99999999999999999999999"] {
                if !bad.is_empty() {
                    add(&format!("{o} {bad:?}"), &[o], &[&format!("{o}{bad}")]);
                }
                add(&format!("{l}={bad:?}"), &[o], &[&format!("{l}={bad}")]);
            }
        }
        for bad in ["0", "0B", "0GiB", "0.0", "0e5B", "", "x", "-1", "-5GiB", "1XB", "GiB", "1 2", "1GiBs", "0.1B", "99999999999999999999999999GiB", "NaN", "inf"] {
            add(&format!("--size={bad:?}"), &["--size"], &[&format!("--size={bad}")]);
        }
        for bad in ["100EB", "15EiB", "17179869183", "9PB"] {
            add(&format!("--size={bad:?}"), &["--size"], &[&format!("--size={bad}")]);
        }
        for bad in ["-1", "x", "", "18446744073709551616", "1.0"] {
            add(&format!("--seed={bad:?}"), &["--seed"], &[&format!("--seed={bad}")]);
        }
    }
    if matches!(w, W::Topk | W::Botk) {
        for bad in ["0", "000", "-3", "x", "", "2.5"] {
            if !bad.is_empty() {
                add(&format!("-k {bad:?}"), &["-k"], &[&format!("-k{bad}")]);
            }
            if w == W::Topk {
                add(&format!("--topk={bad:?}"), &["-k"], &[&format!("--topk={bad}")]);
            }
        }
        for bad in ["1B", "2B", "3B", "3", "0.000000001", "0.003KiB", "0.000003MB"] {
            if bad == "3" {
                continue;
            }
            add(&format!("--size={bad:?}"), &["--size"], &[&format!("--size={bad}")]);
        }
        for bad in ["-1", "x", "", "99999999999999999999"] {
            add(&format!("--threshold={bad:?}"), &[], &[&format!("--threshold={bad}")]);
        }
    }
    if w == W::Topk {
        for bad in ["1B", "4B", "5B", "7B", "0.007KiB"] {
            add(&format!("--u64 --size={bad:?}"), &["--size"], &["--u64", &format!("--size={bad}")]);
        }
    }
    if w == W::Botk {
        for bad in ["0", "0.0", "-0", "-0.0", "-1", "-0.5", "1.0000001", "1.5", "2", "1e9", "inf", "-inf", "NaN", "nan", "-NaN", "x", ""] {
            add(&format!("--p-keep={bad:?}"), &[], &[&format!("--p-keep={bad}")]);
        }
    }
    if w == W::Count {
        add("no --search", &["-s"], &[]);
        for bad in ["", " ", "\t\n", "\u{3000}\u{a0}"] {
            add(&format!("--search={bad:?}"), &["-s"], &[&format!("--search={bad}")]);
            add(&format!("second --search={bad:?}"), &[], &[&format!("--search={bad}")]);
        }
    }
    if matches!(w, W::Search | W::Locate) {
        add("no --pattern", &["-p"], &[]);
        for bad in ["(", ")", "[", "a{2,1}", "*", "+", "?", "(?P<n>a", "\\", "[z-a]", "(?<", "\\p{Nope}", "a{1000}{1000}{1000}", "(a", "\\1", "(?=a)"] {
            add(&format!("--pattern={bad:?}"), &["-p"], &[&format!("--pattern={bad}")]);
            add(&format!("second --pattern={bad:?}"), &[], &[&format!("--pattern={bad}")]);
            add(&format!("first --pattern={bad:?}"), &["-p"], &[&format!("--pattern={bad}"), "-p", "a"]);
        }
        for bad in ["-1", "x", "", "1.5"] {
            add(&format!("--locations-limit={bad:?}"), &["--with-locations"], &["--with-locations", &format!("--locations-limit={bad}")]);
        }
    }
    if w == W::Search {
        for l in ["0", "1", "5", "99999"] {
            add(&format!("--locations-limit={l} without --with-locations"), &[], &[&format!("--locations-limit={l}")]);
        }
    }
    if matches!(w, W::Count | W::Search | W::Locate) {
        add("--file-limit=0", &[], &["--file-limit=0"]);
    }
    for (o, ok) in [("--limit", true), ("--file-limit", true), ("--workers", true), ("-l", true), ("-j", true)] {
        let _ = ok;
        for bad in ["-1", "x", "1.5", "99999999999999999999999"] {
            let a = if o.starts_with("--") { format!("{o}={bad}") } else { format!("{o}{bad}") };
            add(&format!("{o} {bad:?}"), &[], &[&a]);
        }
    }
    add("unknown option", &[], &["--no-such-option"]);
    if !matches!(w, W::Unique) {
        add("--out without a value", &[], &["--out"]);
    } else {
        add("--out is not known", &[], &["--out=o"]);
    }
    let mut none = build(w, &[], &[]);
    v.push(("no input".into(), none.clone(), false));
    none.push("--json".into());
    v.push(("no input, json".into(), none.clone(), false));
    none.push("-q".into());
    v.push(("no input, quiet".into(), none, false));
    v
}

pub fn c23(env: &Env) {
    let q = env.quick();
    let c: Corpus = vec![file(&["a b a", "b"]), file(&["a"])];
    let paths = env.corpus(&c);
    // 1. everything invalid, in every output mode
    let mut jobs = vec![];
    for w in ALL {
        for (what, a, input) in invalid(w) {
            jobs.push((w, what, a, input));
        }
    }
    env.par("invalid arguments", &jobs, |ctx, (w, what, a, input)| {
        let out = format!("bad{}.jsonl", ctx.worker);
        for m in 0..4 {
            let mut args = a.clone();
            match m {
                1 => args.push("--json".into()),
                2 if *w != W::Unique => args.insert(1, format!("--out={out}")),
                3 => args.extend(["-q".to_string(), "--json".into()]),
                _ => {}
            }
            // options on either side of the input
            let mut cmd = ctx.env.cmd(&[], &[]);
            if *input && m % 2 == 0 {
                args.splice(1..1, paths.iter().cloned());
            }
            cmd.args = args;
            if *input && m % 2 == 1 {
                cmd.args.extend(paths.iter().cloned());
            }
            let p = ctx.env.scratch.join(&out);
            let label = format!("{w:?} {what} mode {m}");
            ctx.env.distinct(&label);
            let p2 = p.clone();
            ctx.eval_prep(
                &label,
                &cmd,
                &move || {
                    let _ = std::fs::remove_file(&p2);
                },
                &|o| {
                    rejected(o)?;
                    no_results(&p)
                },
            );
        }
    });
    // 2. no command, an unknown one
    let mut odd: Vec<Vec<&str>> = vec![vec![], vec!["frobnicate"], vec!["--frobnicate"], vec![""], vec!["topk=1"], vec!["TOPK", "x"]];
    for w in ALL {
        odd.push(vec![name(w)]);
    }
    env.par("no or unknown command", &odd, |ctx, a| {
        let cmd = ctx.env.cmd(a, &[]);
        ctx.env.distinct(&format!("{a:?}"));
        ctx.eval(&format!("{a:?}"), &cmd, &rejected);
    });
    // 3. valid arguments in every spelling give the exact result
    struct Good {
        w: W,
        args: Vec<String>,
        judge: JudgeStr,
        what: String,
    }
    let mut good: Vec<Good> = vec![];
    let names = paths.clone();
    for w in ALL {
        let r = R::new(w);
        let mut add = |what: &str, without: &[&str], with: &[&str], j: JudgeStr| {
            let mut args = build(w, without, with);
            args.push("--json".into());
            good.push(Good { w, args, judge: j, what: what.to_string() });
        };
        let std_judge = |c: &Corpus| -> JudgeStr {
            match w {
                W::Topk => {
                    let x = topk(c, 1, 5, 1);
                    Box::new(move |s| judge_ranked(s, &x))
                }
                W::Count => {
                    let x = count(c, &["a"]);
                    Box::new(move |s| judge_count(s, &x))
                }
                W::Search | W::Locate => {
                    let x = search(c, &["a"]);
                    Box::new(move |s| judge_search_counts(s, &x))
                }
                // two n-grams and two hash functions in 64 slots: some estimate
                W::Unique => Box::new(|s| {
                    let l = lines(s)?;
                    if l.len() == 1 && l[0]["unique_count"].as_u64().is_some_and(|v| v <= 3) {
                        Ok(())
                    } else {
                        Err(format!("reported {s:?}"))
                    }
                }),
                _ => r.judge(c, &names),
            }
        };
        for o in [vec!["-j", "1"], vec!["-j1"], vec!["--workers", "2"], vec!["--workers=64"], vec!["-j", "1000"], vec!["-q"], vec!["--quiet"]] {
            add(&format!("{o:?}"), &[], &o, std_judge(&c));
        }
        for o in [vec!["-l", "1"], vec!["-l1"], vec!["--limit", "1"], vec!["--limit=1"]] {
            add(&format!("{o:?}"), &[], &o, std_judge(&cut(&c, 1)));
        }
        for o in [vec!["--limit=18446744073709551615"], vec!["--limit", "2"], vec!["--file-limit=18446744073709551615"], vec!["--file-limit", "2"], vec!["--file-limit=3"]] {
            add(&format!("{o:?}"), &[], &o, std_judge(&c));
        }
        add("--file-limit=1", &[], &["--file-limit=1"], std_judge(&vec![c[0].clone()]));
        add("--limit=0", &[], &["--limit=0"], std_judge(&cut(&c, 0)));
        if matches!(w, W::Topk | W::Botk | W::Unique | W::Stats) {
            add("--file-limit=0", &[], &["--file-limit=0"], std_judge(&vec![]));
        }
        if matches!(w, W::Topk | W::Botk) {
            let rank = |n: usize, k: usize, th: u64| -> JudgeStr {
                let x = if w == W::Topk { topk(&c, n, k, th) } else { botk(&c, n, k, th) };
                Box::new(move |s| judge_ranked(s, &x))
            };
            let th0 = if w == W::Topk { 1 } else { u32::MAX as u64 };
            for n in [1usize, 2, 3, 4, 100] {
                for k in [1usize, 2, 100, 5000, 1_000_000_000_000, usize::MAX] {
                    for o in [vec![format!("-n{n}"), format!("-k{k}")], vec![format!("--ngram={n}"), "-k".into(), k.to_string()]] {
                        let o: Vec<&str> = o.iter().map(|s| s.as_str()).collect();
                        add(&format!("{o:?}"), &["-n", "-k"], &o, rank(n, k, th0));
                    }
                }
            }
            for th in [0u64, 1, 2, 3, 4, 1000, 4294967295] {
                add(&format!("threshold {th}"), &[], &[&format!("--threshold={th}")], rank(1, 5, th));
                add(&format!("threshold {th}"), &[], &["--threshold", &th.to_string()], rank(1, 5, th));
            }
            // the defaults: n-grams of three tokens, twenty of them, a threshold of one
            add("default n", &["-n"], &[], rank(3, 5, th0));
            add("default k", &["-k"], &[], rank(1, 20, th0));
            add("default h", &["-h"], &[], rank(1, 5, th0));
            add("default seed", &["--seed"], &[], rank(1, 5, th0));
            for h in ["1", "2", "3", "17", "255"] {
                add(&format!("-h {h}"), &["-h"], &["-h", h], rank(1, 5, th0));
                add(&format!("--hashes={h}"), &["-h"], &[&format!("--hashes={h}")], rank(1, 5, th0));
            }
            for s in ["0", "1", "4294967296", "9223372036854775808", "18446744073709551615"] {
                add(&format!("--seed={s}"), &["--seed"], &[&format!("--seed={s}")], rank(1, 5, th0));
            }
            for s in ["1MiB", "1MB", "1mib", "1M", "1Mi", "1 MiB", "0.001", "0.0009765625", "1e6B", "1000000B", "0.5MB", "1e-3", "1000K", "0.001G"] {
                add(&format!("--size={s}"), &["--size"], &[&format!("--size={s}")], rank(1, 5, th0));
            }
        }
        if w == W::Topk {
            for k in [1usize, 3] {
                let x = topk(&c, 1, k, 1);
                add("--topk", &["-k"], &["--topk", &k.to_string(), "--u64"], Box::new(move |s| judge_ranked(s, &x)));
            }
        }
        if w == W::Botk {
            for p in ["1", "1.0", "1e0"] {
                add(&format!("--p-keep={p}"), &[], &[&format!("--p-keep={p}")], r.judge(&c, &names));
            }
            for p in ["0.5", "1e-30", "0.0000001", "0.999999"] {
                let all = botk(&c, 1, 5, u32::MAX as u64);
                add(
                    &format!("--p-keep={p}"),
                    &[],
                    &[&format!("--p-keep={p}")],
                    Box::new(move |s| {
                        for v in lines(s)? {
                            if !all.iter().any(|(g, n)| json!(g) == v["tokens"] && json!(n) == v["count"]) {
                                return Err(format!("{v} is not an n-gram of the corpus with its count"));
                            }
                        }
                        Ok(())
                    }),
                );
            }
        }
        if matches!(w, W::Search | W::Locate) {
            for p in ["a", "^b", "\\ba\\b", "(?i)A", "[ab]+", "\\p{L}", "", "a|", "(?s).", "b$", "x*", "\\s"] {
                let x = search(&c, &[p]);
                add(&format!("--pattern={p}"), &["-p"], &[&format!("--pattern={p}")], Box::new(move |s| judge_search_counts(s, &x)));
            }
            if w == W::Locate {
                for l in ["0", "1", "2", "18446744073709551615"] {
                    let x = search(&c, &["a"]);
                    let nm = names.clone();
                    let lim: u64 = l.parse().unwrap();
                    add(
                        &format!("--locations-limit={l}"),
                        &[],
                        &[&format!("--locations-limit={l}")],
                        Box::new(move |s| {
                            judge_search_counts(s, &x)?;
                            judge_locations(s, &x, &nm, Some(lim))
                        }),
                    );
                }
            }
        }
        if w == W::Count {
            for t in ["b", "a b", " a  b ", "a b a", "zzz", "b.", "--x", "1e5"] {
                let x = count(&c, &[t]);
                add(&format!("--search={t:?}"), &["-s"], &[&format!("--search={t}")], Box::new(move |s| judge_count(s, &x)));
                let x = count(&c, &["a", t]);
                add(&format!("-s a --search={t:?}"), &[], &[&format!("--search={t}")], Box::new(move |s| judge_count(s, &x)));
            }
        }
    }
    env.par("valid arguments", &good, |ctx, g| {
        for before in [false, true] {
            let mut cmd = ctx.env.cmd(&[], &[]);
            cmd.args = g.args.clone();
            if before {
                cmd.args.splice(1..1, paths.iter().cloned());
            } else {
                cmd.args.extend(paths.iter().cloned());
            }
            cmd.free_running = matches!(g.w, W::Unique);
            let label = format!("{:?} {} before={before}", g.w, g.what);
            ctx.env.distinct(&label);
            ctx.eval(&label, &cmd, &|o| (g.judge)(&ok_out(o)?));
        }
    });
    // 4. the size of the table, from the collisions it causes: with one hash function and many n-grams
    // the number of those reported with a count of one is the number of slots
    let words = gen::words(4000);
    let many: Corpus = vec![File { docs: words.chunks(200).map(|w| t(&w.join(" "))).collect() }];
    let mpath = env.corpus(&many);
    let slots_of = |cmd: &str, args: &[&str]| -> Cmd {
        let mut c = env.cmd(&[cmd, "-n", "1", "-k", "5000", "-h", "1", "--seed", "3", "--json", "-j", "1"], &[]);
        c.args.extend(args.iter().map(|s| s.to_string()));
        if cmd == "topk" {
            c.args.extend(["--threshold".to_string(), "0".into()]);
        }
        c.args.extend(mpath.iter().cloned());
        c.free_running = true;
        c
    };
    let max = if q { 130 } else { 300 };
    let bytes: Vec<usize> = (4..max).collect();
    env.par("the number of slots of small tables", &bytes, |ctx, b| {
        for (u64_, per) in [(false, 4usize), (true, 8)] {
            if *b < per {
                continue;
            }
            let s = format!("--size={b}B");
            let args: Vec<&str> = if u64_ { vec![&s, "--u64"] } else { vec![&s] };
            let cmd = slots_of("topk", &args);
            let want = b / per;
            ctx.env.distinct(&format!("{b} {u64_}"));
            ctx.eval(&format!("topk --size={b}B u64={u64_}"), &cmd, &|o| {
                let n = lines(&ok_out(o)?)?.iter().filter(|v| v["count"] == 1).count();
                if n == want {
                    Ok(())
                } else {
                    Err(format!("{b} bytes hold {want} counters, the result shows {n}"))
                }
            });
        }
    });
    // 5. units: the same number of bytes in other words gives the same result
    let mut jobs: Vec<(String, u64)> = vec![];
    for (unit, f) in [
        ("B", 1u64),
        ("b", 1),
        (" B", 1),
        ("k", 1000),
        ("K", 1000),
        ("kB", 1000),
        ("KB", 1000),
        (" kb", 1000),
        ("Ki", 1024),
        ("KiB", 1024),
        ("kib", 1024),
        (" KiB", 1024),
        ("M", 1_000_000),
        ("MB", 1_000_000),
        ("mb", 1_000_000),
        ("MiB", 1 << 20),
        ("Mi", 1 << 20),
        ("G", 1_000_000_000),
        ("GB", 1_000_000_000),
        ("GiB", 1 << 30),
        ("gib", 1 << 30),
        ("T", 1_000_000_000_000),
        ("TiB", 1 << 40),
        ("", 1 << 30),
        (" ", 1 << 30),
    ] {
        // numbers that make a few hundred to a few thousand bytes
        for want in [5u64, 99, 400, 1000, 1024, 4096, 9999] {
            for digits in 0..=12usize {
                let x = want as f64 / f as f64;
                let s = format!("{x:.digits$}");
                let v: f64 = s.parse().unwrap();
                let bytes = v * f as f64;
                // exactly representable results only, and away from rounding questions
                if bytes < 4.0 || bytes > 20_000.0 {
                    continue;
                }
                let fr = bytes - bytes.floor();
                if fr > 1e-6 && fr < 1.0 - 1e-6 {
                    // in between: the number of slots must not depend on how it is rounded
                    if (bytes.floor() as u64) / 4 != (bytes.ceil() as u64) / 4 {
                        continue;
                    }
                }
                let b = bytes.round() as u64;
                let text = if unit == " " { format!(" {s}") } else { format!("{s}{unit}") };
                if unit == " " {
                    continue;
                }
                if !jobs.contains(&(text.clone(), b)) {
                    jobs.push((text, b));
                }
            }
        }
    }
    jobs.push(("1e3B".into(), 1000));
    jobs.push(("1e-6".into(), 1074));
    jobs.push(("2.5e-6".into(), 2684));
    jobs.push(("1e0KiB".into(), 1024));
    jobs.push(("0.05e2KiB".into(), 5120));
    env.par("units of the size", &jobs, |ctx, (text, bytes)| {
        for w in ["topk", "botk"] {
            let a = slots_of(w, &[&format!("--size={bytes}B")]);
            let want = ctx.run(&a);
            let cmd = slots_of(w, &[&format!("--size={text}")]);
            ctx.env.distinct(&format!("{w} {text}"));
            ctx.eval(&format!("{w} --size={text:?} is {bytes} bytes"), &cmd, &|o| {
                let s = ok_out(o)?;
                if s == ok_out(&want)? {
                    Ok(())
                } else {
                    Err(format!("--size={text:?} and --size={bytes}B give different results"))
                }
            });
        }
        // `unique` has one slot per byte
        let u = |s: &str| {
            let mut c = env.cmd(&["unique", "-n", "1", "-h", "1", "--seed", "3", "--json", "-j", "1"], &[]);
            c.args.push(format!("--size={s}"));
            c.args.extend(mpath.iter().cloned());
            c.free_running = true;
            c
        };
        let want = ctx.run(&u(&format!("{bytes}B")));
        ctx.eval(&format!("unique --size={text:?} is {bytes} bytes"), &u(text), &|o| {
            let (a, b) = (ok_out(o)?, ok_out(&want)?);
            let v = |s: &str| lines(s).ok().and_then(|l| l.first().and_then(|v| v["unique_count"].as_f64()));
            match (v(&a), v(&b)) {
                // a byte more or less (rounding) moves the estimate a little
                (Some(x), Some(y)) if (x - y).abs() <= 0.05 * y + 3.0 => Ok(()),
                _ => Err(format!("--size={text:?} gives {a:?}, --size={bytes}B gives {b:?}")),
            }
        });
    });
}
