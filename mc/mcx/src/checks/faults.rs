//! C11 failures are reported, C12 stats retries, C13 termination.
use super::cmds::*;
use super::ranked::{bounds, describe};
use super::*;
use crate::model::*;
use std::io::Read;

const EIO: i32 = 5;
const EINTR: i32 = 4;

fn text_of(f: &File) -> Vec<u8> {
    f.docs.iter().flat_map(|d| d.line().into_bytes()).collect()
}

fn gz_level(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// What the file holds, or that it is damaged.
fn decode(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    match flate2::bufread::MultiGzDecoder::new(b).read_to_end(&mut out) {
        Ok(_) => Ok(out),
        Err(e) => Err(e.to_string()),
    }
}

pub fn bad_lines() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("broken json", b"{\"text\": \n".to_vec()),
        ("blank line", b"\n".to_vec()),
        ("spaces", b"   \n".to_vec()),
        ("not utf-8 in the text", b"{\"text\":\"a \xff\xfe\"}\n".to_vec()),
        ("not utf-8 elsewhere", b"{\"text\":\"a\",\"x\":\"\xc3\x28\"}\n".to_vec()),
        ("number as text", b"{\"text\": 3}\n".to_vec()),
        ("list as text", b"{\"text\": [\"a\"]}\n".to_vec()),
        ("a number", b"7\n".to_vec()),
        ("a string", b"\"a\"\n".to_vec()),
        ("plain text", b"a b a\n".to_vec()),
        ("rest after the object", b"{\"text\":\"a\"} x\n".to_vec()),
        ("two objects", b"{\"text\":\"a\"}{\"text\":\"a\"}\n".to_vec()),
        ("unescaped control character", b"{\"text\":\"a\x01\"}\n".to_vec()),
        ("lone surrogate", b"{\"text\":\"a\\ud800\"}\n".to_vec()),
        ("single quotes", b"{'text':'a'}\n".to_vec()),
        ("byte order mark", b"\xef\xbb\xbf{\"text\":\"a\"}\n".to_vec()),
    ]
}

fn out_name(ctx: &Ctx) -> String {
    format!("o{}.jsonl", ctx.worker)
}

/// A run that has to fail, whatever way the results were asked for.
fn fails(ctx: &mut Ctx, label: &str, r: &R, paths: &[String], edit: &dyn Fn(&mut Cmd)) {
    let mut cmd = r.cmd(ctx.env, paths);
    edit(&mut cmd);
    let out = r.out.as_ref().map(|o| ctx.env.scratch.join(o));
    let out2 = out.clone();
    let label = format!("{label} {}", r.label());
    ctx.env.distinct(&label);
    ctx.eval_prep(
        &label,
        &cmd,
        &move || {
            if let Some(p) = &out2 {
                let _ = std::fs::remove_file(p);
            }
        },
        &|o| {
            must_fail(o)?;
            if let Some(p) = &out {
                no_results(p)?;
            }
            Ok(())
        },
    );
}

/// A run with n-grams too long to exist: a worker that dies of them must make the run fail, and a program
/// that copes with them gives the exact (empty) result.
fn dies_or_exact(o: &Outcome, j: &dyn Fn(&str) -> Check) -> Check {
    if o.err().contains("panicked at") {
        must_fail(o)
    } else {
        exact_or_fails(o, j)
    }
}

/// A run that must either give the exact result or fail cleanly.
fn exact_or_fails(o: &Outcome, j: &dyn Fn(&str) -> Check) -> Check {
    if let Some(h) = o.hang() {
        return Err(h);
    }
    if o.code == 0 {
        j(&ok_out(o)?)
    } else {
        must_fail(o)
    }
}

pub fn c11(env: &Env) {
    let good: Vec<Doc> = vec![t("a b"), t("b a"), t("a"), t("c")];
    // 1. a bad line anywhere
    struct Job {
        kind: usize,
        before: usize,
        after: usize,
        files: usize,
        at: usize,
    }
    let kinds = bad_lines();
    let mut jobs = vec![];
    for kind in 0..kinds.len() {
        for before in 0..3 {
            for after in 0..2 {
                for files in 1..=3 {
                    for at in 0..files {
                        jobs.push(Job { kind, before, after, files, at });
                    }
                }
            }
        }
    }
    env.par("bad lines", &jobs, |ctx, jb| {
        let (name, bad) = &kinds[jb.kind];
        let mut paths = vec![];
        for i in 0..jb.files {
            let mut b = text_of(&File { docs: good[..if i == jb.at { jb.before } else { 2 }].to_vec() });
            if i == jb.at {
                b.extend(bad);
                b.extend(text_of(&File { docs: good[..jb.after].to_vec() }));
            }
            paths.push(ctx.env.put_bytes(&b, &format!("b{i}")));
        }
        let h = jb.kind * 7 + jb.before * 3 + jb.after * 5 + jb.files + jb.at;
        for (i, w) in ALL.iter().enumerate() {
            for m in 0..6 {
                if ctx.env.quick() && (m + h + i) % 3 != 0 {
                    continue;
                }
                for lim in [None, Some(jb.before + 1), Some(jb.before + 9)] {
                    let out = out_name(ctx);
                    let mut r = R::new(*w).j([1, 2, 3, 0][(h + m + i) % 4]).mode(m, &out);
                    r.limit = lim;
                    r.policy = ((h + m) / 2 % 2) as u32;
                    // a multi-line kind without newline at the end is only read when it comes last
                    fails(ctx, &format!("{name} after {} of file {}/{} ({} after)", jb.before, jb.at, jb.files, jb.after), &r, &paths, &|_| ());
                }
            }
        }
    });
    // 2. files that cannot be opened or read
    #[derive(Clone, Copy, Debug)]
    enum Bad {
        Missing,
        DanglingLink,
        Fifo,
        Empty,
        NotGzip,
        Open(i32),
        Read(i32),
        MissingDir,
        EmptyDir,
    }
    let mut jobs = vec![];
    for b in [
        Bad::Missing,
        Bad::DanglingLink,
        Bad::Fifo,
        Bad::Empty,
        Bad::NotGzip,
        Bad::Open(13),
        Bad::Open(24),
        Bad::Open(2),
        Bad::Open(EIO),
        Bad::Read(EIO),
        Bad::Read(21),
        Bad::MissingDir,
        Bad::EmptyDir,
    ] {
        for files in 1..=3usize {
            for at in 0..files {
                jobs.push((b, files, at));
            }
        }
    }
    std::fs::create_dir_all(env.scratch.join("emptydir")).unwrap();
    let _ = std::os::unix::fs::symlink("nothing-here", env.scratch.join("dangling.json.gz"));
    let fifo = std::ffi::CString::new(env.scratch.join("fifo.json.gz").to_str().unwrap()).unwrap();
    unsafe { libc::mkfifo(fifo.as_ptr(), 0o600) };
    env.put_raw("empty.json.gz", b"");
    env.put_raw("plain.json.gz", b"{\"text\":\"a\"}\n");
    env.par("files that cannot be read", &jobs, |ctx, (b, files, at)| {
        let mut paths: Vec<String> = (0..*files).map(|i| ctx.env.put(&File { docs: good[..2].to_vec() }, i)).collect();
        let mut faults = vec![];
        match b {
            Bad::Missing => paths[*at] = "missing.json.gz".into(),
            Bad::DanglingLink => paths[*at] = "dangling.json.gz".into(),
            Bad::Fifo => paths[*at] = "fifo.json.gz".into(),
            Bad::Empty => paths[*at] = "empty.json.gz".into(),
            Bad::NotGzip => paths[*at] = "plain.json.gz".into(),
            Bad::MissingDir => paths[*at] = "missingdir/".into(),
            Bad::EmptyDir => paths[*at] = "emptydir".into(),
            Bad::Open(e) => faults.push(Fault { class: F_OPEN, track: 0, sticky: 1, nth: 0, action: *e }),
            Bad::Read(e) => faults.push(Fault { class: F_READ, track: 0, sticky: 1, nth: 0, action: *e }),
        }
        let tracked = vec![paths[*at].clone()];
        for w in ALL {
            for m in 0..6 {
                for j in [1, 2, 3] {
                    let out = out_name(ctx);
                    let r = R::new(w).j(j).mode(m, &out);
                    let label = format!("{b:?} as file {at} of {files}");
                    if matches!(b, Bad::Empty) {
                        // nothing at all is not a gzip file, but reading it as having no lines loses nothing
                        let mut c: Corpus = (0..*files).map(|_| File { docs: good[..2].to_vec() }).collect();
                        c[*at].docs.clear();
                        let mut r = r.clone();
                        r.json = true;
                        let jd = r.judge(&c, &paths);
                        r.out = None;
                        ctx.eval(&format!("{label} {}", r.label()), &r.cmd(ctx.env, &paths), &|o| exact_or_fails(o, &*jd));
                        continue;
                    }
                    fails(ctx, &label, &r, &paths, &|c| {
                        c.faults = faults.clone();
                        c.tracked = tracked.clone();
                    });
                }
            }
        }
    });
    // 3. cut and changed bytes
    let d1 = text_of(&File { docs: vec![t("a b"), t("b a"), t("a")] });
    let d2 = text_of(&File { docs: vec![t("c a"), t("b")] });
    let mut shapes: Vec<(&str, Vec<u8>, Vec<usize>)> = vec![];
    for lv in [0, 6] {
        let g1 = gz_level(&d1, lv);
        let mut two = g1.clone();
        let b = two.len();
        two.extend(gz_level(&d2, lv));
        shapes.push(("one member", g1.clone(), vec![]));
        shapes.push(("two members", two, vec![b]));
        // an empty member in front
        let mut e = gz_level(b"", lv);
        let b = e.len();
        e.extend(&g1);
        shapes.push(("empty member first", e, vec![b]));
    }
    {
        use std::io::Write;
        let mut e = flate2::GzBuilder::new().filename("x.json").comment("c").extra(vec![1, 2, 3]).write(Vec::new(), flate2::Compression::new(0));
        e.write_all(&d1).unwrap();
        shapes.push(("header with fields", e.finish().unwrap(), vec![]));
    }
    let mut jobs: Vec<(String, Vec<u8>, bool)> = vec![];
    for (name, bytes, bounds) in &shapes {
        let whole = decode(bytes).unwrap();
        for cut in 1..bytes.len() {
            if !bounds.contains(&cut) {
                jobs.push((format!("{name}, cut after {cut} of {}", bytes.len()), bytes[..cut].to_vec(), true));
            }
        }
        for i in 0..bytes.len() {
            for x in [0xffu8, 0x01, 0x20, 0x80] {
                let mut b = bytes.clone();
                b[i] ^= x;
                match decode(&b) {
                    Err(_) => jobs.push((format!("{name}, byte {i} changed by {x:#x}"), b, true)),
                    Ok(d) if d == whole => jobs.push((format!("{name}, byte {i} changed by {x:#x}"), b, false)),
                    Ok(_) => {}
                }
            }
        }
        for tail in [&b"x"[..], b"\x1f", b"\x1f\x8b\x08", b"garbage after the end"] {
            let mut b = bytes.clone();
            b.extend(tail);
            if decode(&b).is_err() {
                jobs.push((format!("{name}, followed by {tail:?}"), b, true));
            }
        }
    }
    env.section(json!({"damaged files": jobs.len()}));
    env.par("damaged files", &jobs, |ctx, (name, bytes, must)| {
        let p = ctx.env.put_exact(bytes, "d");
        let g = ctx.env.put(&File { docs: vec![t("a")] }, 1);
        let h = hash64(name.as_bytes()) as usize;
        for (i, w) in ALL.iter().enumerate() {
            if ctx.env.quick() && (i + h) % 2 == 0 {
                continue;
            }
            for (k, paths) in [vec![p.clone()], vec![p.clone(), g.clone()], vec![g.clone(), p.clone()]].iter().enumerate() {
                let out = out_name(ctx);
                let mut r = R::new(*w).j(1 + (h + k) % 2).mode(h / 3 + i + k, &out);
                if (h + i) % 5 == 0 {
                    r.limit = Some(1000);
                }
                r.chunk = [0, 1, 7, 13][h / 7 % 4];
                if *must {
                    fails(ctx, name, &r, paths, &|_| ());
                } else {
                    r.json = true;
                    r.out = None;
                    let dec = decode(bytes).unwrap();
                    let docs: Vec<Doc> =
                        dec.split(|b| *b == b'\n').filter(|l| !l.is_empty()).map(|l| {
                            let v: Value = serde_json::from_slice(l).unwrap();
                            t(v["text"].as_str().unwrap())
                        }).collect();
                    let c: Corpus = paths.iter().map(|q| if q == &p { File { docs: docs.clone() } } else { File { docs: vec![t("a")] } }).collect();
                    let jd = r.judge(&c, paths);
                    ctx.eval(&format!("{name} {}", r.label()), &r.cmd(ctx.env, paths), &|o| exact_or_fails(o, &*jd));
                }
            }
        }
    });
    // 4. a read that fails, or reports the end, anywhere in the file
    let mut jobs: Vec<(W, usize, u32, i32, u8, usize, u32)> = vec![];
    for w in ALL {
        for (si, s) in shapes.iter().enumerate() {
            for chunk in [0u32, 5, 16] {
                let n = if chunk == 0 { 2 } else { (s.1.len() as u32).div_ceil(chunk) + 1 };
                for k in 0..n {
                    for (action, sticky) in [(EIO, 1u8), (EIO, 0), (A_EOF, 1), (EINTR, 0), (11, 0), (116, 1)] {
                        for at in 0..2usize {
                            let h = si + k as usize + at + action as usize % 5 + w as usize;
                            if ctx_skip(env, h) {
                                continue;
                            }
                            jobs.push((w, si, chunk, action, sticky, at, k));
                        }
                    }
                }
            }
        }
    }
    env.par("reads that fail", &jobs, |ctx, (w, si, chunk, action, sticky, at, k)| {
        let bytes = &shapes[*si].1;
        let p = ctx.env.put_exact(bytes, "r");
        let g = ctx.env.put(&File { docs: vec![t("a")] }, 1);
        let paths = if *at == 0 { vec![p.clone(), g] } else { vec![g, p.clone()] };
        let docs_of = |b: &[u8]| -> Option<Vec<Doc>> {
            let d = decode(b).ok()?;
            d.split(|b| *b == b'\n')
                .filter(|l| !l.is_empty())
                .map(|l| serde_json::from_slice::<Value>(l).ok().and_then(|v| v["text"].as_str().map(t)))
                .collect()
        };
        let whole = docs_of(bytes).unwrap();
        let corp = |d: Vec<Doc>| -> Corpus {
            if *at == 0 {
                vec![File { docs: d }, File { docs: vec![t("a")] }]
            } else {
                vec![File { docs: vec![t("a")] }, File { docs: d }]
            }
        };
        let mut r = R::new(*w).j(1 + *k as usize % 2);
        r.chunk = *chunk;
        r.quiet = k % 3 == 0;
        if k % 4 == 3 {
            r.limit = Some(100);
        }
        let mut cmd = r.cmd(ctx.env, &paths);
        cmd.tracked = vec![p];
        cmd.faults = vec![Fault { class: F_READ, track: 0, sticky: *sticky, nth: *k, action: *action }];
        let jd = r.judge(&corp(whole.clone()), &paths);
        // an early end at the end of a member cannot be told from the end of the file
        let early = if *action == A_EOF {
            let cut = if *chunk == 0 { if *k == 0 { 0 } else { bytes.len() } } else { ((*k * *chunk) as usize).min(bytes.len()) };
            docs_of(&bytes[..cut]).map(|d| r.judge(&corp(d), &paths))
        } else {
            None
        };
        let label = format!("read {k} gives {action} (chunks of {chunk}) {} {}", shapes[*si].0, r.label());
        ctx.env.distinct(&label);
        ctx.eval(&label, &cmd, &|o| match exact_or_fails(o, &*jd) {
            Ok(()) => {
                // an error that persists must be reported (if the read happened at all)
                if o.code == 0 && o.faults_hit > 0 && *sticky == 1 && *action < 4096 {
                    return Err("status 0 although a file could not be read to its end".into());
                }
                Ok(())
            }
            Err(e) => match &early {
                Some(j2) => j2(&ok_out(o)?),
                None => Err(e),
            },
        });
    });
    // 5. workers that die
    let c: Corpus = vec![file(&["a b", "b"]), file(&["a"])];
    let mut jobs = vec![];
    for w in [W::Topk, W::Botk, W::Unique] {
        for n in [usize::MAX, usize::MAX / 2, 1usize << 61, 1 << 58, 1 << 40] {
            for j in [1, 2] {
                for m in 0..4 {
                    for e in 0..3 {
                        jobs.push((w, n, j, m, e));
                    }
                }
            }
        }
    }
    env.par("workers that die", &jobs, |ctx, (w, n, j, m, e)| {
        let out = out_name(ctx);
        let mut r = R::new(*w).j(*j).mode(*m, &out);
        r.n = *n;
        // the dying worker's file first, second, or both
        let c2: Corpus = match e {
            0 => c.clone(),
            1 => vec![c[0].clone(), File::default()],
            _ => vec![File::default(), c[1].clone()],
        };
        let paths = ctx.env.corpus(&c2);
        let p = r.out.as_ref().map(|o| ctx.env.scratch.join(o));
        let p2 = p.clone();
        let jd = r.judge(&c2, &paths);
        ctx.eval_prep(
            &format!("worker dies {} {}", r.label(), describe(&c2)),
            &r.cmd(ctx.env, &paths),
            &move || {
                if let Some(p) = &p2 {
                    let _ = std::fs::remove_file(p);
                }
            },
            &|o| {
                if o.code == 0 && (p.is_some() || !r.json) && !o.err().contains("panicked at") {
                    return match o.hang() {
                        Some(h) => Err(h),
                        None => Ok(()),
                    };
                }
                dies_or_exact(o, &*jd)?;
                if o.code != 0 {
                    if let Some(p) = &p {
                        no_results(p)?;
                    }
                }
                Ok(())
            },
        );
    });
    // 6. every schedule
    let mut jobs: Vec<(String, R, Vec<String>, Vec<Fault>, Option<Corpus>)> = vec![];
    let bad = |k: usize, pos: &str, before: &[&str]| {
        let mut b = text_of(&file(before));
        b.extend(&kinds[k].1);
        env.put_bytes(&b, pos)
    };
    for w in ALL {
        let g = env.put(&file(&["a b"]), 0);
        let g1 = env.put(&file(&["b a", "a"]), 1);
        let mut r = R::new(w).j(2);
        let b1 = bad(0, "s1", &["a"]);
        let b2 = bad(1, "s2", &[]);
        jobs.push(("bad second file".into(), r.clone(), vec![g.clone(), b1.clone()], vec![], None));
        jobs.push(("bad first file".into(), r.clone(), vec![b1.clone(), g1.clone()], vec![], None));
        jobs.push(("two bad files".into(), r.clone(), vec![b1.clone(), b2.clone()], vec![], None));
        jobs.push(("missing second file".into(), r.clone(), vec![g.clone(), "missing.json.gz".into()], vec![], None));
        jobs.push(("third of three bad".into(), r.clone(), vec![g.clone(), g1.clone(), b2.clone()], vec![], None));
        jobs.push((
            "second file unreadable".into(),
            r.clone(),
            vec![g.clone(), g1.clone()],
            vec![Fault { class: F_OPEN, track: 0, sticky: 1, nth: 0, action: 13 }],
            None,
        ));
        if matches!(w, W::Topk | W::Botk | W::Unique) {
            r.n = usize::MAX;
            jobs.push(("worker dies".into(), r.clone(), vec![g.clone(), g1.clone()], vec![], Some(vec![file(&["a b"]), file(&["b a", "a"])])));
            jobs.push(("worker dies, other file empty".into(), r.clone(), vec![g.clone(), env.put(&File::default(), 1)], vec![], Some(vec![file(&["a b"]), File::default()])));
        }
    }
    let secs = if env.quick() { 2.0 } else { 90.0 };
    env.par("schedules", &jobs, |ctx, (name, r, paths, faults, dying)| {
        let mut cmd = r.cmd(ctx.env, paths);
        if r.w == W::Unique {
            // a small table: its final scan has one step per slot
            for a in cmd.args.iter_mut() {
                if a == "4KiB" {
                    *a = "8B".into();
                }
            }
        }
        if !faults.is_empty() {
            cmd.tracked = vec![paths[1].clone()];
            cmd.faults = faults.clone();
        }
        let jd = dying.as_ref().map(|c| r.judge(c, paths));
        ctx.deepen(&format!("{name} {}", r.label()), &cmd, &bounds(ctx.env), secs, &|o| match &jd {
            Some(j) => dies_or_exact(o, &**j),
            None => must_fail(o),
        });
    });
}

fn ctx_skip(env: &Env, h: usize) -> bool {
    env.quick() && h % 4 != 0
}

// ---------------------------------------------------------------- stats retries

pub fn c12(env: &Env) {
    let fl = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    let corpora: Vec<Corpus> = vec![
        fl(&[&["a b c", "a", "b b"]]),
        fl(&[&["a", "a b c d"], &["b b b b", "c"]]),
        fl(&[&["a a", "a a"], &["b b", "b"], &["", "c c c"]]),
        vec![File { docs: vec![t("a b"), Doc::Null, t("a")] }, file(&["a"])],
    ];
    // Number of reads of each file in a run without failures.
    let chunk = if env.quick() { 24 } else { 13 };
    struct Job {
        c: usize,
        level: u32,
        plan: Vec<(usize, Vec<i64>)>, // file, position of the failing read per attempt (-1: open fails)
        j: usize,
        quiet: bool,
        action: i32,
        limit: bool,
    }
    let bytes: Vec<Vec<Vec<Vec<u8>>>> =
        corpora.iter().map(|c| [0u32, 6].iter().map(|lv| c.iter().map(|f| gz_level(&text_of(f), *lv)).collect()).collect()).collect();
    let reads = |c: usize, lv: usize, f: usize| (bytes[c][lv][f].len() as i64 + chunk as i64 - 1) / chunk as i64 + 1;
    let mut jobs: Vec<Job> = vec![];
    let mut n = 0usize;
    for c in 0..corpora.len() {
        for lv in 0..2 {
            for f in 0..corpora[c].len() {
                let r = reads(c, lv, f);
                for p1 in -1..r {
                    for (action, quiet) in [(EIO, false), (EIO, true), (A_FLIP, false), (A_EOF, true), (EINTR, false)] {
                        n += 1;
                        jobs.push(Job { c, level: lv as u32, plan: vec![(f, vec![p1])], j: 1 + n % 3, quiet, action, limit: n % 5 == 0 });
                    }
                    for p2 in -1..r {
                        n += 1;
                        jobs.push(Job {
                            c,
                            level: lv as u32,
                            plan: vec![(f, vec![p1, p2])],
                            j: 1 + n % 3,
                            quiet: n % 2 == 0,
                            action: [EIO, A_FLIP, A_EOF][n % 3],
                            limit: n % 7 == 0,
                        });
                        for p3 in -1..r {
                            if env.quick() && (p1 + p2 + p3 + 3) % 4 != 0 {
                                continue;
                            }
                            n += 1;
                            jobs.push(Job { c, level: lv as u32, plan: vec![(f, vec![p1, p2, p3])], j: 1 + n % 3, quiet: n % 2 == 0, action: EIO, limit: n % 7 == 0 });
                        }
                    }
                }
            }
            // two failures in each of several files
            if corpora[c].len() > 1 {
                let all: Vec<usize> = (0..corpora[c].len()).collect();
                let rs: Vec<i64> = all.iter().map(|f| reads(c, lv, *f)).collect();
                for p1 in -1..rs[0] {
                    for p2 in -1..rs[1] {
                        for k in 1..=2 {
                            n += 1;
                            let plan = all.iter().map(|f| (*f, (0..k).map(|i| if (f + i) % 2 == 0 { p1.min(rs[*f] - 1) } else { p2.min(rs[*f] - 1) }).collect())).collect();
                            jobs.push(Job { c, level: lv as u32, plan, j: 1 + n % 3, quiet: n % 2 == 0, action: EIO, limit: false });
                        }
                    }
                }
            }
        }
    }
    // Faults for a plan: reads are counted over all attempts.
    let faults_of = |track: usize, plan: &[i64], action: i32| -> Vec<Fault> {
        let mut v = vec![];
        let mut reads = 0u32;
        for (i, p) in plan.iter().enumerate() {
            if *p < 0 {
                v.push(Fault { class: F_OPEN, track: track as u8, sticky: 0, nth: i as u32, action: EIO });
            } else {
                v.push(Fault { class: F_READ, track: track as u8, sticky: 0, nth: reads + *p as u32, action });
                reads += *p as u32 + 1;
            }
        }
        v
    };
    env.par("failing attempts", &jobs, |ctx, jb| {
        let c = &corpora[jb.c];
        let paths: Vec<String> = (0..c.len()).map(|i| ctx.env.put_exact(&bytes[jb.c][jb.level as usize][i], &format!("s{i}"))).collect();
        let mut r = R::new(W::Stats).j(jb.j);
        r.chunk = chunk;
        r.quiet = jb.quiet;
        if jb.limit {
            r.limit = Some(50);
        }
        let mut cmd = r.cmd(ctx.env, &paths);
        cmd.tracked = paths.clone();
        for (f, p) in &jb.plan {
            // only errors end an attempt where they are planned
            cmd.faults.extend(faults_of(*f, p, if p.len() > 1 && jb.action != EIO { EIO } else { jb.action }));
        }
        if cmd.faults.len() > MAX_FAULTS {
            return;
        }
        let give_up = jb.plan.iter().any(|(_, p)| p.len() >= 3);
        let jd = r.judge(c, &paths);
        let label = format!("plan {:?} action {} level {} {} {}", jb.plan, jb.action, jb.level, r.label(), describe(c));
        ctx.env.distinct(&label);
        ctx.eval(&label, &cmd, &|o| {
            if give_up && o.faults_hit >= 3 {
                must_fail(o)
            } else {
                jd(&ok_out(o)?)
            }
        });
    });
    // data that changes in a failing attempt: the attempt may see other documents, but only the last one counts
    let mut jobs = vec![];
    for c in 0..corpora.len() {
        for f in 0..corpora[c].len() {
            for ch in [4u32, 9, 24] {
                let n = (bytes[c][0][f].len() as u32).div_ceil(ch) + 1;
                for k in 0..n {
                    jobs.push((c, f, ch, k));
                }
            }
        }
    }
    env.par("attempts that read other data", &jobs, |ctx, (ci, f, ch, k)| {
        let c = &corpora[*ci];
        let paths: Vec<String> = (0..c.len()).map(|i| ctx.env.put_exact(&bytes[*ci][0][i], &format!("s{i}"))).collect();
        let mut r = R::new(W::Stats).j(1 + *k as usize % 2);
        r.chunk = *ch;
        let jd = r.judge(c, &paths);
        for twice in [false, true] {
            let mut cmd = r.cmd(ctx.env, &paths);
            cmd.tracked = vec![paths[*f].clone()];
            cmd.faults = vec![Fault { class: F_READ, track: 0, sticky: 0, nth: *k, action: A_FLIP }];
            if twice {
                // the same read of the next attempt, wherever the first one ended
                cmd.faults.push(Fault { class: F_OPEN, track: 0, sticky: 0, nth: 1, action: EIO });
            }
            let label = format!("changed read {k} chunk {ch} twice={twice} {} {}", r.label(), describe(c));
            ctx.eval(&label, &cmd, &|o| jd(&ok_out(o)?));
        }
    });
    // given up only after three attempts
    let mut jobs = vec![];
    for (ci, c) in corpora.iter().enumerate() {
        for f in 0..c.len() {
            for class in [F_OPEN, F_READ] {
                for nth in [0u32, 1, 2, 3, 4] {
                    for j in [1, 2] {
                        jobs.push((ci, f, class, nth, j));
                    }
                }
            }
        }
    }
    env.par("persistent failures", &jobs, |ctx, (ci, f, class, nth, j)| {
        let c = &corpora[*ci];
        let paths: Vec<String> = (0..c.len()).map(|i| ctx.env.put_exact(&bytes[*ci][0][i], &format!("s{i}"))).collect();
        let mut r = R::new(W::Stats).j(*j);
        r.chunk = chunk;
        let mut cmd = r.cmd(ctx.env, &paths);
        cmd.tracked = vec![paths[*f].clone()];
        cmd.faults = vec![Fault { class: *class, track: 0, sticky: 1, nth: *nth, action: EIO }];
        let jd = r.judge(c, &paths);
        ctx.eval(&format!("persistent {class} from {nth} file {f} {}", r.label()), &cmd, &|o| {
            if o.faults_hit == 0 {
                return jd(&ok_out(o)?);
            }
            must_fail(o)?;
            let opens = o.io_counts[0][F_OPEN as usize];
            if opens < 3 {
                return Err(format!("the file was given up after {opens} attempts"));
            }
            Ok(())
        });
    });
    // a malformed line is a failure of every attempt; other files do not matter
    // every schedule
    let mut jobs: Vec<(String, usize, usize, Vec<(usize, Vec<i64>)>)> = vec![];
    let cs: Vec<Corpus> = vec![fl(&[&["a b", "c"], &["a b"]]), fl(&[&["a"], &["b b", "b"]]), fl(&[&["a a"], &["b"], &["c c"]])];
    for (i, c) in cs.iter().enumerate() {
        jobs.push((format!("first file once {i}"), i, 2, vec![(0, vec![1])]));
        jobs.push((format!("second file once {i}"), i, 2, vec![(1, vec![2])]));
        jobs.push((format!("both files {i}"), i, 2, vec![(0, vec![1]), (1, vec![1])]));
        jobs.push((format!("both files twice {i}"), i, 2, vec![(0, vec![1, 2]), (1, vec![-1, 2])]));
        if c.len() > 2 {
            jobs.push((format!("three workers {i}"), i, 3, vec![(0, vec![1]), (1, vec![2])]));
        }
    }
    let secs = if env.quick() { 5.0 } else { 120.0 };
    env.par("schedules", &jobs, |ctx, (name, ci, j, plan)| {
        let c = &cs[*ci];
        let paths: Vec<String> = c.iter().enumerate().map(|(i, f)| ctx.env.put_exact(&gz_level(&text_of(f), 0), &format!("x{i}"))).collect();
        let mut r = R::new(W::Stats).j(*j);
        r.chunk = 24;
        let mut cmd = r.cmd(ctx.env, &paths);
        cmd.tracked = paths.clone();
        for (f, p) in plan {
            cmd.faults.extend(faults_of(*f, p, EIO));
        }
        let jd = r.judge(c, &paths);
        ctx.deepen(&format!("{name} {plan:?} {}", r.label()), &cmd, &bounds(ctx.env), secs, &|o| jd(&ok_out(o)?));
    });
}

// ---------------------------------------------------------------- termination

pub fn c13(env: &Env) {
    let fl = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    let ends = |o: &Outcome| -> Check {
        match o.hang() {
            Some(h) => Err(h),
            None if !o.ended() => Err(format!("the program died: {} {}", o.code, tail(&o.err()))),
            None => Ok(()),
        }
    };
    let bad = {
        let mut b = text_of(&file(&["a b"]));
        b.extend(b"{\n");
        env.put_bytes(&b, "t")
    };
    let many = env.put(&file(&["a b c d", "e f g b"]), 0);
    let many1 = env.put(&file(&["h i", "j b a"]), 1);
    let one = env.put(&file(&["a"]), 2);
    let none = env.put(&File::default(), 3);
    let mut jobs: Vec<(String, R, Vec<String>)> = vec![];
    for w in ALL {
        let r = R::new(w).j(2);
        let mut tight = r.clone();
        tight.cap = 1;
        jobs.push(("two files".into(), r.clone(), vec![one.clone(), many1.clone()]));
        jobs.push(("empty files".into(), r.clone(), vec![none.clone(), none.clone()]));
        jobs.push(("bad file last".into(), r.clone(), vec![one.clone(), bad.clone()]));
        jobs.push(("no workers asked".into(), r.clone().j(0), vec![one.clone(), many1.clone()]));
        if matches!(w, W::Topk | W::Botk | W::Locate) {
            jobs.push(("full channel".into(), tight.clone(), vec![many.clone(), many1.clone()]));
            jobs.push(("full channel, one worker".into(), tight.clone().j(1), vec![many.clone(), many1.clone()]));
            jobs.push(("full channel, bad file".into(), tight.clone(), vec![many.clone(), bad.clone()]));
            jobs.push(("full channel, bad file first".into(), tight.clone(), vec![bad.clone(), many.clone()]));
            jobs.push(("full channel, bad file, one worker".into(), tight.clone().j(1), vec![many.clone(), bad.clone(), many1.clone()]));
            jobs.push(("full channel, missing file".into(), tight.clone(), vec![many.clone(), "missing.json.gz".into(), many1.clone()]));
            jobs.push(("full channel, three workers".into(), tight.clone().j(3), vec![many.clone(), many1.clone(), one.clone()]));
            jobs.push(("full channel, quiet".into(), { let mut t = tight.clone(); t.quiet = true; t }, vec![many.clone(), many1.clone()]));
        }
        if matches!(w, W::Topk | W::Botk | W::Unique) {
            let mut d = tight.clone();
            d.n = usize::MAX;
            jobs.push(("dying workers".into(), d.clone(), vec![many.clone(), one.clone()]));
            jobs.push(("dying worker, empty file".into(), d.clone(), vec![many.clone(), none.clone()]));
            jobs.push(("dying worker, three files".into(), d.clone().j(1), vec![many.clone(), none.clone(), one.clone()]));
        }
        jobs.push(("missing second file".into(), r.clone(), vec![one.clone(), "missing.json.gz".into()]));
        jobs.push(("more files than workers".into(), r.clone(), vec![one.clone(), none.clone(), many1.clone()]));
    }
    let secs = if env.quick() { 2.0 } else { 90.0 };
    env.par("schedules", &jobs, |ctx, (name, r, paths)| {
        let mut cmd = r.cmd(ctx.env, paths);
        cmd.free_running = false;
        if r.w == W::Unique {
            for a in cmd.args.iter_mut() {
                if a == "4KiB" {
                    *a = "8B".into();
                }
            }
        }
        ctx.deepen(&format!("{name} {}", r.label()), &cmd, &bounds(ctx.env), secs, &ends);
    });
    // every small corpus, both policies, channels of one and two places
    let corp = gen::small_corpora();
    env.par("small corpora x channels", &corp, |ctx, c| {
        let paths = ctx.env.corpus(c);
        let h = hash64(describe(c).as_bytes()) as usize;
        for w in ALL {
            for cap in [1u32, 2] {
                for policy in [0u32, 1] {
                    if ctx.env.quick() && (h + cap as usize + policy as usize) % 2 == 0 {
                        continue;
                    }
                    let mut r = R::new(w).j(1 + (h + cap as usize) % 3);
                    r.cap = cap;
                    r.policy = policy;
                    let l = format!("small policy={policy} {} {}", r.label(), describe(c));
                    ctx.env.distinct(&l);
                    ctx.eval(&l, &r.cmd(ctx.env, &paths), &ends);
                }
            }
        }
    });
    // real channels, more results than they hold
    let total = 530_000;
    let per = 1000;
    let big: Corpus = vec![
        File { docs: (0..total / 2 / per).map(|i| t(&(0..per).map(|k| format!("x{}", i * per + k)).collect::<Vec<_>>().join(" "))).collect() },
        File { docs: (0..total / 2 / per).map(|i| t(&(0..per).map(|k| format!("y{}", i * per + k)).collect::<Vec<_>>().join(" "))).collect() },
    ];
    let paths = env.corpus(&big);
    let mut jobs: Vec<(W, usize, usize)> = vec![];
    for w in [W::Topk, W::Botk] {
        for j in [1, 2] {
            jobs.push((w, j, 2 * total));
        }
    }
    env.par("more results than the channel holds", &jobs, |ctx, (w, j, k)| {
        let bot = *w == W::Botk;
        let mut f = super::ranked::Conf::new(1, *k, *j);
        f.threshold = if bot { None } else { Some(0) };
        f.size = "256MiB".into();
        f.free = true;
        let cmd = f.cmd(ctx.env, bot, &paths);
        ctx.eval(&format!("{w:?} {k} results j={j}"), &cmd, &|o| {
            ends(o)?;
            let n = ok_out(o)?.lines().count();
            if n != total {
                return Err(format!("{n} of {total} n-grams were reported"));
            }
            Ok(())
        });
    });
    // many files, many workers
    let mut jobs: Vec<(usize, usize)> = vec![];
    for nf in if env.quick() { vec![2, 10, 33, 70] } else { vec![2, 10, 32, 33, 64, 65, 100, 300, 1000] } {
        for j in [1, 4, 31, 32, 33, 64, 100] {
            jobs.push((nf, j));
        }
    }
    env.par("many files, many workers", &jobs, |ctx, (nf, j)| {
        let c: Corpus = (0..*nf).map(|i| file(&[["a b", "b", "a a"][i % 3], "b a"])).collect();
        let paths = ctx.env.corpus(&c);
        for w in ALL {
            let mut r = R::new(w).j(*j);
            r.free = true;
            let jd = r.judge(&c, &paths);
            ctx.eval(&format!("{nf} files {}", r.label()), &r.cmd(ctx.env, &paths), &|o| {
                ends(o)?;
                jd(&ok_out(o)?)
            });
            // with a failure in the middle
            let mut p2 = paths.clone();
            p2[nf / 2] = bad.clone();
            ctx.eval(&format!("{nf} files, one bad {}", r.label()), &r.cmd(ctx.env, &p2), &|o| {
                ends(o)?;
                must_fail(o)
            });
        }
    });
}
