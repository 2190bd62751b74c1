//! C18 line reader, C19 tokenizer, C20 n-gram windows, C21 counter, C22 top-k tracker:
//! the public library API, driven by the `apih` binary, and the same facts seen through the commands.
use super::cmds::*;
use super::ranked::{bounds, describe, Conf};
use super::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

const EIO: i32 = 5;
const EINTR: i32 = 4;

fn api_cmd(env: &Env, args: &[String]) -> Cmd {
    let mut c = Cmd::new(&env.scratch, &[]);
    c.args = args.to_vec();
    c.seed = env.seed;
    c
}
fn strs(a: &[&dyn ToString]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}

/// Without the harness (the public API has changed) only the commands are judged.
fn no_api(env: &Env) -> bool {
    if !env.api {
        env.note("the API harness does not fit the current public API; judged through the commands only");
    }
    !env.api
}

/// Enumerations that carry their own reference.
fn bad_is_null(o: &Outcome) -> Check {
    let s = ok_out(o)?;
    let v = lines(&s)?;
    let v = v.first().ok_or("no verdict")?;
    match v.get("bad") {
        Some(Value::Null) => Ok(()),
        Some(b) => Err(b.as_str().unwrap_or("?").to_string()),
        None => Err(format!("no verdict: {v}")),
    }
}

fn enumerate(env: &Env, what: &str, jobs: &[Vec<String>]) {
    use std::sync::atomic::{AtomicU64, Ordering};
    let total = AtomicU64::new(0);
    env.par(what, jobs, |ctx, a| {
        let mut c = api_cmd(ctx.env, a);
        c.free_running = true;
        c.max_steps = u32::MAX;
        ctx.eval_api(&format!("{what} {}", a.join(" ")), &c, &|o| {
            if let Some(n) = lines(&o.out()).ok().and_then(|v| v.first().and_then(|v| v["n"].as_u64())) {
                total.fetch_add(n, Ordering::Relaxed);
            }
            bad_is_null(o)
        });
        ctx.env.distinct(&format!("{what} {a:?}"));
    });
    env.section(json!({"part": format!("{what}: inputs decided inside the harness"), "inputs": total.load(Ordering::Relaxed)}));
}

// ---------------------------------------------------------------- C18

fn split_lines(b: &[u8]) -> Vec<Vec<u8>> {
    b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect()
}

fn contents(max: usize) -> Vec<Vec<u8>> {
    contents_of(&[b"a", b"\n", "é".as_bytes(), b"\r"], max)
}

fn contents_of(al: &[&[u8]], max: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for a in al {
                let mut m = l.clone();
                m.extend_from_slice(a);
                next.push(m);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

const MODES: [&str; 4] = ["drop", "hold", "alt", "late"];

/// What a read of the file with these bytes has to give: all lines, or an error after a prefix of them.
#[derive(Clone)]
enum Want {
    Lines(Vec<Vec<u8>>),
    /// exactly these, then an error
    ThenErr(Vec<Vec<u8>>),
    /// a prefix of these, then an error
    PrefixThenErr(Vec<Vec<u8>>),
    /// an error or exactly these
    Either(Vec<Vec<u8>>),
}

fn judge_lines(v: &Value, w: &Want) -> Check {
    let got: Vec<Vec<u8>> = v["lines"].as_array().ok_or("no lines")?.iter().map(|x| unhex(x.as_str().unwrap_or(""))).collect();
    let err = v["err"].as_str();
    if v["changed"].as_bool() != Some(false) {
        return Err("a line handed out earlier has changed".into());
    }
    let show = |x: &[Vec<u8>]| clip(&format!("{:?}", x.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect::<Vec<_>>()));
    match w {
        Want::Lines(l) => {
            if let Some(e) = err {
                return Err(format!("error on a sound file: {e}"));
            }
            if &got != l {
                return Err(format!("read {} lines {}, the file has {} lines {}", got.len(), show(&got), l.len(), show(l)));
            }
        }
        Want::ThenErr(l) => {
            if err.is_none() {
                return Err(format!("the end of the file is reported without an error after {}", show(&got)));
            }
            if &got != l {
                return Err(format!("read {} before the error, expected {}", show(&got), show(l)));
            }
        }
        Want::PrefixThenErr(l) => {
            if err.is_none() {
                return Err(format!("the end of the file is reported without an error after {}", show(&got)));
            }
            if got.len() > l.len() || got[..] != l[..got.len()] {
                return Err(format!("read {} before the error, the file has {}", show(&got), show(l)));
            }
        }
        Want::Either(l) => {
            if err.is_none() && &got != l {
                return Err(format!("read {} without an error, the file has {}", show(&got), show(l)));
            }
        }
    }
    Ok(())
}

/// One execution of the harness over many files.
fn read_files(ctx: &mut Ctx, label: &str, mode: &str, files: &[String], wants: &[Want], edit: &dyn Fn(&mut Cmd)) {
    let mut a = strs(&[&"lines", &mode]);
    a.extend(files.iter().cloned());
    let mut c = api_cmd(ctx.env, &a);
    edit(&mut c);
    let label = format!("lines {mode} chunk={} {label}", c.read_chunk);
    ctx.env.distinct(&label);
    ctx.eval_api(&label, &c, &|o| {
        let v = lines(&ok_out(o)?)?;
        if v.len() != wants.len() {
            return Err(format!("{} verdicts for {} files", v.len(), wants.len()));
        }
        for (i, (v, w)) in v.iter().zip(wants).enumerate() {
            judge_lines(v, w).map_err(|e| format!("{}: {e}", files[i]))?;
        }
        Ok(())
    });
}

fn decode_prefix(b: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    let mut out = vec![];
    match flate2::bufread::MultiGzDecoder::new(b).read_to_end(&mut out) {
        Ok(_) => Ok(out),
        Err(_) => Err(out),
    }
}

fn gz_level(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

fn long_contents(quick: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let mut sizes = BTreeSet::new();
    for p in [1usize << 11, 1 << 12, 1 << 13, 1 << 15, 1 << 16] {
        for d in [-2i64, -1, 0, 1, 2] {
            sizes.insert((p as i64 + d) as usize);
        }
    }
    sizes.extend([99_999, 100_001, (1 << 17) + 1, (1 << 18) + 1, 1_000_001, (1 << 20) + 1, (1 << 21) + 3]);
    if !quick {
        for p in [3 << 11, 1 << 14, 3 << 13, 1 << 17, 1 << 20] {
            for d in [-1i64, 0, 1] {
                sizes.insert((p as i64 + d) as usize);
            }
        }
    }
    for n in sizes {
        // one long line; a long line between short ones; the line end exactly at the boundary; a
        // two-byte character across it; hard to compress
        let fill = |m: usize| -> Vec<u8> { (0..m).map(|i| b'a' + ((i * i / 7 + i) % 23) as u8).collect() };
        v.push((format!("one line of {n}"), fill(n)));
        let mut b = fill(n - 1);
        b.push(b'\n');
        b.extend_from_slice(b"x\n\ny");
        v.push((format!("line end at {n}"), b));
        let mut b = b"s\n".to_vec();
        b.extend(fill(n - 3));
        b.extend_from_slice("é\nz\n".as_bytes());
        b.extend(fill(n / 2));
        b.extend_from_slice(b"\nlast\n");
        v.push((format!("character across {n}"), b));
        let mut b = fill(n - 1);
        b.extend_from_slice(b"\r\n\r\n");
        b.extend(fill(7));
        v.push((format!("carriage return across {n}"), b));
        // many lines of falling and rising lengths up to that size
        let mut b = vec![];
        let mut left = n;
        let mut k = 1;
        while left > 0 {
            let m = k.min(left);
            b.extend(fill(m - 1));
            b.push(b'\n');
            left -= m;
            k = k * 3 % 1009 + 1;
        }
        v.push((format!("lines up to {n}"), b));
    }
    v
}

pub fn c18(env: &Env) {
    if no_api(env) {
        return c18_commands(env);
    }
    let q = env.quick();
    // 1. every small content as one member
    let mut all = contents(if q { 6 } else { 7 });
    // characters that some readers treat in a way of their own
    all.extend(contents_of(&[b"a", b"\n", "\u{feff}".as_bytes(), "\u{2028}".as_bytes(), "\u{85}".as_bytes(), b"\0", b"\x0c", b" ", b"\x1a"], if q { 4 } else { 5 }));
    let groups: Vec<&[Vec<u8>]> = all.chunks(60).collect();
    env.par("all small contents, every reading mode", &groups, |ctx, g| {
        let files: Vec<String> = g.iter().map(|b| ctx.env.put_bytes(b, "s")).collect();
        let wants: Vec<Want> = g.iter().map(|b| Want::Lines(split_lines(b))).collect();
        for m in MODES {
            for chunk in [0u32, 1, 3] {
                read_files(ctx, &format!("{:x}", hash64(format!("{g:?}").as_bytes())), m, &files, &wants, &|c| {
                    c.read_chunk = chunk;
                    c.tracked = vec!["*.gz".into()];
                });
            }
        }
    });
    // 2. every split into members, with empty members anywhere
    let small = contents(if q { 4 } else { 5 });
    env.par("every split into up to three members", &small, |ctx, b| {
        let mut cases: Vec<Vec<u8>> = vec![];
        for i in 0..=b.len() {
            for j in i..=b.len() {
                let mut m = gz(&b[..i]);
                m.extend(gz_level(&b[i..j], ((i + j) % 10) as u32));
                m.extend(gz(&b[j..]));
                cases.push(m);
            }
            let mut m = gz(&b[..i]);
            m.extend(gz(&b[i..]));
            cases.push(m);
        }
        let files: Vec<String> = cases.iter().map(|b| ctx.env.put_exact(b, "m")).collect();
        let wants: Vec<Want> = cases.iter().map(|_| Want::Lines(split_lines(b))).collect();
        for (i, m) in MODES.iter().enumerate() {
            read_files(ctx, &format!("members of {b:?}"), m, &files, &wants, &|c| {
                c.read_chunk = [0u32, 1, 7, 20][i];
                c.tracked = vec!["*.gz".into()];
            });
        }
    });
    // 4. files cut short at every byte
    let mut damaged: Vec<Vec<u8>> = vec![gz(b"ab\nc\n"), gz(b"one\ntwo\nthree"), gz(b"\n"), gz(b"")];
    let mut two = gz(b"ab\nc");
    two.extend(gz("é\nd\n".as_bytes()));
    damaged.push(two);
    let mut three = gz(b"x\n");
    three.extend(gz(b""));
    three.extend(gz_level(b"y\nz\n", 0));
    damaged.push(three);
    let mut named = vec![]; // a header with a name, a comment and a checksum of its own
    {
        use std::io::Write;
        let mut e = flate2::GzBuilder::new().filename("n").comment("c").extra(vec![1, 2]).mtime(7).write(&mut named, flate2::Compression::best());
        e.write_all(b"ab\nab\nab\nab\n").unwrap();
        e.finish().unwrap();
    }
    damaged.push(named);
    let big: Vec<u8> = (0..400usize).flat_map(|i| format!("{}{}\n", i * i % 9973, "-x".repeat(i % 97)).into_bytes()).collect();
    damaged.push(gz(&big));
    if !q {
        damaged.push(gz_level(&big, 0));
    }
    env.par("cut at every byte", &damaged, |ctx, b| {
        let full = decode_prefix(b).unwrap();
        let step = (b.len() / 400).max(1);
        let cuts: Vec<usize> = (1..b.len()).filter(|i| *i < 100 || i % step == 0 || *i + 100 > b.len()).collect();
        for g in cuts.chunks(100) {
            let files: Vec<String> = g.iter().map(|i| ctx.env.put_exact(&b[..*i], "c")).collect();
            let wants: Vec<Want> = g
                .iter()
                .map(|i| match decode_prefix(&b[..*i]) {
                    Ok(x) => Want::Lines(split_lines(&x)),
                    Err(_) => Want::PrefixThenErr(split_lines(&full)),
                })
                .collect();
            for (k, m) in MODES.iter().enumerate() {
                read_files(ctx, &format!("{} bytes cut from {} to {}", b.len(), g[0], g[g.len() - 1]), m, &files, &wants, &|c| {
                    c.read_chunk = [0u32, 1, 5, 64][k];
                    c.tracked = vec!["*.gz".into()];
                });
            }
        }
    });
    // 5. every bit of small files flipped
    let flips: Vec<(usize, usize)> =
        damaged.iter().enumerate().filter(|(_, b)| b.len() < 400).flat_map(|(i, b)| (0..b.len()).map(move |j| (i, j))).collect();
    let flips: Vec<&[(usize, usize)]> = flips.chunks(8).collect();
    env.par("every bit flipped", &flips, |ctx, g| {
        let mut files = vec![];
        let mut wants = vec![];
        for (i, at) in g.iter() {
            let full = decode_prefix(&damaged[*i]).unwrap();
            for bit in 0..8 {
                let mut b = damaged[*i].clone();
                b[*at] ^= 1 << bit;
                // a flip in the length or checksum of a member, or in its data, cannot go unnoticed; one
                // in the time stamp can
                let w = match decode_prefix(&b) {
                    Ok(x) if x == full => Want::Lines(split_lines(&full)),
                    Ok(x) => Want::Either(split_lines(&x)),
                    Err(_) => Want::ThenErr(vec![]),
                };
                wants.push(match w {
                    Want::ThenErr(_) => None,
                    w => Some(w),
                });
                files.push(ctx.env.put_exact(&b, "b"));
            }
        }
        let mut a = strs(&[&"lines", &"hold"]);
        a.extend(files.iter().cloned());
        let c = api_cmd(ctx.env, &a);
        ctx.env.distinct(&format!("flips {g:?}"));
        ctx.eval_api(&format!("flips {g:?}"), &c, &|o| {
            let v = lines(&ok_out(o)?)?;
            for (i, w) in wants.iter().enumerate() {
                let v = v.get(i).ok_or("too few verdicts")?;
                match w {
                    Some(w) => judge_lines(v, w),
                    None if v["err"].is_null() => Err("damage goes unnoticed".to_string()),
                    None => Ok(()),
                }
                .map_err(|e| format!("{} bit {}: {e}", files[i], i % 8))?;
            }
            Ok(())
        });
    });
    // 6. a failing or interrupted read at every position, one and all from there on; early end
    let faulty: Vec<(usize, Vec<u8>)> = damaged.iter().filter(|b| b.len() < 400).cloned().chain([gz(&big[..3000])]).enumerate().collect();
    env.par("a fault at every read", &faulty, |ctx, (bi, b)| {
        let full = decode_prefix(b).unwrap();
        let all = split_lines(&full);
        let p = ctx.env.put_exact(b, "r");
        for chunk in [0u32, 1, 9, 64] {
            if chunk == 1 && b.len() > 400 {
                continue;
            }
            let c0 = if chunk == 0 { 1 << 15 } else { chunk as usize };
            let reads = b.len().div_ceil(c0) + 2;
            for nth in 0..reads {
                for (action, sticky, w) in [
                    (EIO, 0u8, Want::PrefixThenErr(all.clone())),
                    (EIO, 1, Want::PrefixThenErr(all.clone())),
                    (EINTR, 0, Want::Lines(all.clone())),
                    (A_SHORT, 0, Want::Lines(all.clone())),
                    (
                        A_EOF,
                        1,
                        match decode_prefix(&b[..(nth * c0).min(b.len())]) {
                            _ if nth == 0 => Want::Either(vec![]),
                            Ok(x) => Want::Lines(split_lines(&x)),
                            Err(_) => Want::PrefixThenErr(all.clone()),
                        },
                    ),
                ] {
                    let m = MODES[(nth + chunk as usize + action as usize) % 4];
                    let f = Fault { class: F_READ, track: 0, sticky, nth: nth as u32, action };
                    let pp = p.clone();
                    let run = |ctx: &mut Ctx, w: &Want| {
                        let mut c = api_cmd(ctx.env, &strs(&[&"lines", &m, &pp]));
                        c.read_chunk = chunk;
                        c.tracked = vec![pp.clone()];
                        c.faults = vec![f];
                        let label = format!("fault {action} sticky={sticky} at read {nth} chunk={chunk} of {bi} {m}");
                        ctx.env.distinct(&label);
                        ctx.eval_api(&label, &c, &|o| {
                            let v = lines(&ok_out(o)?)?;
                            // a fault at a read that was never made changes nothing
                            let w = if o.faults_hit == 0 { Want::Lines(all.clone()) } else { w.clone() };
                            judge_lines(v.first().ok_or("no verdict")?, &w)
                        });
                    };
                    run(ctx, &w);
                }
            }
        }
    });
    // 7. invalid UTF-8 in every line
    let bads: [&[u8]; 6] = [b"\xff", b"a\xc3", b"\xc3\x28", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80"];
    let mut jobs = vec![];
    for b in bads {
        for before in 0..4usize {
            for after in ["", "\n", "\nx\n"] {
                jobs.push((b, before, after));
            }
        }
    }
    env.par("invalid UTF-8", &jobs, |ctx, (bad, before, after)| {
        let mut b = vec![];
        for i in 0..*before {
            b.extend_from_slice(format!("l{i}é\n").as_bytes());
        }
        let good = split_lines(&b);
        b.extend_from_slice(b"start ");
        b.extend_from_slice(bad);
        b.extend_from_slice(after.as_bytes());
        let mut split = gz(&b[..b.len() / 2]);
        split.extend(gz(&b[b.len() / 2..]));
        let files = vec![ctx.env.put_bytes(&b, "u"), ctx.env.put_exact(&split, "u")];
        for m in MODES {
            read_files(ctx, &format!("{bad:?} after {before} lines {after:?}"), m, &files, &[Want::ThenErr(good.clone()), Want::ThenErr(good.clone())], &|_| ());
        }
    });
    c18_commands(env);
}

/// The same seen through a command that accounts for every byte.
fn c18_commands(env: &Env) {
    let mut jobs = vec![];
    for files in 1..=2usize {
        for sizes in [[0usize, 1, 2], [7, 2030, 3], [2048, 1, 8150], [8192, 8191, 1], [32768, 5, 40000]] {
            for members in 1..=3usize {
                jobs.push((files, sizes, members));
            }
        }
    }
    env.par("lengths and members through stats", &jobs, |ctx, (files, sizes, members)| {
        let mut c: Corpus = vec![];
        let mut paths = vec![];
        for f in 0..*files {
            let docs: Vec<Doc> = sizes.iter().map(|n| t(&"ab ".repeat(n / 3 + f))).collect();
            let fl = File { docs };
            let b: Vec<u8> = fl.docs.iter().flat_map(|d| d.line().into_bytes()).collect();
            let mut raw = vec![];
            let step = b.len() / members;
            for m in 0..*members {
                raw.extend(gz(&b[m * step..if m + 1 == *members { b.len() } else { (m + 1) * step }]));
            }
            paths.push(ctx.env.put_exact(&raw, &format!("st{f}")));
            c.push(fl);
        }
        for w in [W::Stats, W::Count, W::Topk] {
            for chunk in [0u32, 1000] {
                for q in [false, true] {
                    let mut r = R::new(w).j(*files);
                    r.chunk = chunk;
                    r.quiet = q;
                    let mut cmd = r.cmd(ctx.env, &paths);
                    cmd.tracked = paths.clone();
                    let label = format!("{} {sizes:?} in {members} members", r.label());
                    ctx.env.distinct(&label);
                    let j = r.judge_out(&c, &paths);
                    ctx.eval(&label, &cmd, &*j);
                }
            }
        }
    });
    // 3. long lines around the sizes of buffers
    let q = env.quick();
    let long = long_contents(q);
    env.par("long lines", &long, |ctx, (name, b)| {
        let wants = vec![Want::Lines(split_lines(b))];
        let n = b.len();
        let mut forms = vec![gz_level(b, 1), gz_level(b, 0), gz_level(b, 9)];
        for cut in [1, n / 2, n.saturating_sub(1), 8191.min(n), 8192.min(n), 32768.min(n)] {
            let mut m = gz(&b[..cut]);
            m.extend(gz_level(&b[cut..], 0));
            forms.push(m);
        }
        for (i, f) in forms.iter().enumerate() {
            let p = vec![ctx.env.put_exact(f, "l")];
            for m in MODES {
                for chunk in [0u32, 509, 4096] {
                    if chunk > 0 && (i + m.len() + chunk as usize) % 2 == 0 && ctx.env.quick() {
                        continue;
                    }
                    read_files(ctx, &format!("{name} form {i}"), m, &p, &wants, &|c| {
                        c.read_chunk = chunk;
                        c.tracked = vec!["*.gz".into()];
                    });
                }
            }
        }
    });
    let very: Vec<usize> = if q { vec![22, 24] } else { vec![22, 23, 24, 25, 26] };
    env.par("very long lines", &very, |ctx, p| {
        let n = (1usize << p) + 1;
        let fill = |m: usize| -> Vec<u8> { (0..m).map(|i| b'a' + ((i * i / 7 + i) % 23) as u8).collect() };
        let mut b = b"s\n".to_vec();
        b.extend(fill(n));
        b.extend_from_slice(b"\nz\n\n");
        b.extend(fill(n / 2));
        b.extend_from_slice(b"\nlast\n");
        let f = vec![ctx.env.put_exact(&gz_level(&b, 1), "v")];
        let wants = vec![Want::Lines(split_lines(&b))];
        for m in MODES {
            read_files(ctx, &format!("line of 2^{p} + 1"), m, &f, &wants, &|c| c.tracked = vec!["*.gz".into()]);
        }
    });
}

// ---------------------------------------------------------------- C19

pub const TOKEN_ALPHABET: &str =
    "a B1_'.,:\"-$\n\r\t\u{b}\u{a0}\u{85}\u{3000}\u{2028}\u{1680}\u{200d}\u{301}👩🇩א한漢カก\u{ad}\u{200b}\u{feff}\u{0}\u{fe0f}ß\u{200e}";

pub fn c19(env: &Env) {
    let q = env.quick();
    let al: Vec<char> = TOKEN_ALPHABET.chars().collect();
    if !no_api(env) {
        let depth = if q { 4 } else { 5 };
        let jobs: Vec<Vec<String>> = (0..al.len()).map(|i| strs(&[&"tokens", &depth, &i])).collect();
        enumerate(env, "all texts over the alphabet", &jobs);
        let step = 0x110000 / 64;
        let jobs: Vec<Vec<String>> = (0..64).map(|i| strs(&[&"chars", &(i * step), &((i + 1) * step)])).collect();
        enumerate(env, "all characters in seven contexts", &jobs);
    }
    // Through the commands: stats sees how many tokens, topk and botk which, count finds each
    let mut jobs: Vec<(String, Vec<String>)> = vec![];
    for a in &al {
        let mut v = vec![a.to_string()];
        for b in &al {
            v.push(format!("{a}{b}"));
            v.push(format!("x{a}{b}y"));
            if !q {
                for c in &al {
                    v.push(format!("{a}{b}{c}"));
                }
            }
        }
        jobs.push((format!("{a:?}"), v));
    }
    jobs.push(("odd texts".into(), gen::odd_texts()));
    // every white space character and some that are not, between and around words
    let ws: Vec<char> = (0u32..0x3100).chain(0xfe00..0x10000).filter_map(char::from_u32).filter(|c| c.is_whitespace() || c.is_control()).collect();
    jobs.push(("white space".into(), ws.iter().flat_map(|c| [format!("a{c}b"), c.to_string(), format!("{c}{c} {c}"), format!(" {c}x{c}")]).collect()));
    // long runs of one character and long words
    for (i, a) in al.iter().chain(['é', 'ん', '中', '𝒳'].iter()).enumerate() {
        let mut v = vec![];
        for n in if q { vec![254usize, 255, 256, 257, 1023, 1025, 4097, 65537] } else { vec![254, 255, 256, 257, 1023, 1024, 1025, 4095, 4097, 65535, 65537] } {
            // (finding the words of a text of certain characters takes time quadratic in its length)
            if n > 5000 && !"a.é中カ한 \n".contains(*a) {
                continue;
            }
            let r: String = std::iter::repeat(*a).take(n).collect();
            v.push(format!("x{r}y z"));
            v.push(r);
        }
        jobs.push((format!("runs of {a:?}"), v));
    }
    env.par("tokens through the commands", &jobs, |ctx, (name, texts)| {
        let c: Corpus = vec![File { docs: texts.iter().map(|s| t(s)).collect() }];
        let paths = ctx.env.corpus(&c);
        ctx.env.distinct(name);
        let r = R::new(W::Stats);
        let j = r.judge_out(&c, &paths);
        ctx.eval(&format!("stats {name}"), &r.cmd(ctx.env, &paths), &*j);
        for n in [1, 2] {
            let mut k = Conf::new(n, 100_000, 1).th(0).size("64MiB");
            k.free = true;
            let w = topk(&c, n, 100_000, 0);
            ctx.eval(&format!("topk n={n} {name}"), &k.cmd(ctx.env, false, &paths), &|o| judge_ranked(&ok_out(o)?, &w));
            let mut k = Conf::new(n, 100_000, 1).size("64MiB");
            k.free = true;
            let w = botk(&c, n, 100_000, u32::MAX as u64);
            ctx.eval(&format!("botk n={n} {name}"), &k.cmd(ctx.env, true, &paths), &|o| judge_ranked(&ok_out(o)?, &w));
        }
        // search terms are tokenized in the same way
        // (comparing a long term with a long text takes the product of their lengths)
        let short: Vec<String> = texts.iter().filter(|s| s.len() < 5_000).cloned().collect();
        let c: Corpus = vec![File { docs: short.iter().map(|s| t(s)).collect() }];
        let paths = ctx.env.corpus(&c);
        for g in short.chunks(150) {
            let terms: Vec<&str> = g.iter().map(|s| s.as_str()).filter(|s| !tokens(s).is_empty() && !s.contains('\0')).collect();
            if terms.is_empty() {
                continue;
            }
            let mut a = vec!["count".to_string(), "--json".into()];
            a.extend(terms.iter().map(|s| format!("--search={s}")));
            a.push("--".into());
            a.extend(paths.iter().cloned());
            let cmd = api_cmd(ctx.env, &a);
            let w = count(&c, &terms);
            ctx.eval(&format!("count {name} {:x}", hash64(g.join("|").as_bytes())), &cmd, &|o| judge_count(&ok_out(o)?, &w));
        }
    });
}

// ---------------------------------------------------------------- C20

pub fn c20(env: &Env) {
    let q = env.quick();
    if !no_api(env) {
        let mut jobs: Vec<Vec<String>> = vec![];
        if q {
            jobs.push(strs(&[&"windows", &2, &9, &11]));
            jobs.push(strs(&[&"windows", &3, &6, &8]));
            jobs.push(strs(&[&"windows", &1, &40, &42]));
            jobs.push(strs(&[&"long", &90]));
        } else {
            jobs.push(strs(&[&"windows", &2, &15, &17]));
            jobs.push(strs(&[&"windows", &3, &9, &11]));
            jobs.push(strs(&[&"windows", &4, &7, &9]));
            jobs.push(strs(&[&"windows", &1, &100, &102]));
            jobs.push(strs(&[&"long", &400]));
        }
        enumerate(env, "all token sequences and window sizes", &jobs);
    }
    // iterator and commands on the same corpora
    let corpora = gen::small_corpora();
    let api = env.api;
    env.par("iterator and commands agree", &corpora, |ctx, c| {
        let paths = ctx.env.corpus(c);
        let h = hash64(describe(c).as_bytes()) as usize;
        for n in 1..=4usize {
            if ctx.env.quick() && n != 1 + h % 4 && n != 2 {
                continue;
            }
            windows_agree(ctx, c, &paths, n, 1 + h % 3, api);
        }
    });
    // boundaries between documents and files: one- and two-token documents in every arrangement
    let docs: Vec<Doc> = vec![t("x"), t("y"), t("x y"), t(""), Doc::Null];
    let fs = gen::files(&docs, 2);
    let mut cs = gen::corpora(&fs, 2);
    if !q {
        cs.extend(gen::corpora(&gen::files(&docs, 1), 4));
        cs.extend(gen::corpora(&gen::files(&docs, 4), 1));
    }
    env.par("boundaries between documents and files", &cs, |ctx, c| {
        let paths = ctx.env.corpus(c);
        let h = hash64(describe(c).as_bytes()) as usize;
        for n in [2usize, 3] {
            windows_agree(ctx, c, &paths, n, 1 + h % 2, false);
        }
    });
    // documents of every length around n, for n up to 130
    let mut jobs = vec![];
    for n in gen::ladder(if q { 65 } else { 300 }).into_iter().filter(|n| *n > 0) {
        jobs.push(n);
    }
    env.par("documents of about n tokens", &jobs, |ctx, n| {
        let w = gen::words(4 * n + 8);
        let mut c: Corpus = vec![File::default(), File::default()];
        let mut at = 0;
        for len in [n.saturating_sub(1), *n, n + 1, 0, 1, 2 * n] {
            let d = t(&w[at..at + len].join(" "));
            at = (at + len) % n;
            c[len % 2].docs.push(d.clone());
            c[(len + 1) % 2].docs.push(d);
        }
        let paths = ctx.env.corpus(&c);
        windows_agree(ctx, &c, &paths, *n, 2, api);
    });
}

fn windows_agree(ctx: &mut Ctx, c: &Corpus, paths: &[String], n: usize, j: usize, api: bool) {
    let truth = ngram_counts(c, n);
    let d = describe(c);
    ctx.env.distinct(&format!("{n} {d}"));
    if api {
        // the iterator on each file
        for (i, p) in paths.iter().enumerate() {
            let one = vec![c[i].clone()];
            let want = json!(ngram_counts(&one, n).into_iter().collect::<Vec<_>>());
            let cmd = api_cmd(ctx.env, &strs(&[&"split", &n, p]));
            ctx.eval_api(&format!("split {n} file {i} of {d}"), &cmd, &|o| {
                let v = lines(&ok_out(o)?)?;
                if v.first() == Some(&want) {
                    Ok(())
                } else {
                    Err(format!("the iterator gives {}, expected {want}", clip(&format!("{v:?}"))))
                }
            });
        }
    }
    let k = 1000;
    let mut f = Conf::new(n, k, j).th(0).size("256KiB");
    let w = topk(c, n, k, 0);
    ctx.eval(&f.label("topk", c), &f.cmd(ctx.env, false, paths), &|o| judge_ranked(&ok_out(o)?, &w));
    f.threshold = None;
    let w = botk(c, n, k, u32::MAX as u64);
    ctx.eval(&f.label("botk", c), &f.cmd(ctx.env, true, paths), &|o| judge_ranked(&ok_out(o)?, &w));
    let mut r = R::new(W::Unique).j(j);
    r.n = n;
    r.free = true;
    let jd = r.judge_out(c, paths);
    if truth.len() < 40 {
        let mut cmd = r.cmd(ctx.env, paths);
        for a in cmd.args.iter_mut().filter(|a| *a == "4KiB") {
            *a = "8MiB".into();
        }
        ctx.eval(&format!("{} {d}", r.label()), &cmd, &*jd);
    }
    // count: every n-gram, and every joint of two neighbouring documents
    let mut terms: BTreeSet<String> = truth.keys().map(|g| g.join(" ")).collect();
    let texts: Vec<Vec<String>> = c.iter().flat_map(|f| f.docs.iter().filter_map(|d| d.text()).map(tokens)).collect();
    for a in &texts {
        for b in &texts {
            if !a.is_empty() && !b.is_empty() {
                terms.insert(format!("{} {}", a[a.len() - 1], b[0]));
                terms.insert(format!("{} {}", a.join(" "), b.join(" ")));
            }
        }
    }
    let terms: Vec<&str> = terms.iter().map(|s| s.as_str()).take(60).collect();
    if !terms.is_empty() {
        let mut a = strs(&[&"count", &"--json", &"-j", &j]);
        for s in &terms {
            a.push(format!("--search={s}"));
        }
        a.push("--".into());
        a.extend(paths.iter().cloned());
        let w = count(c, &terms);
        ctx.eval(&format!("count {n} j={j} {d}"), &api_cmd(ctx.env, &a), &|o| judge_count(&ok_out(o)?, &w));
    }
}

// ---------------------------------------------------------------- C21

#[derive(Clone)]
struct Cnt {
    ty: &'static str,
    size: usize,
    h: usize,
    seed: u64,
    init: u64,
    threads: Vec<Vec<(char, &'static str, u64)>>,
    /// spurious failures before each weak compare-exchange
    weak: u32,
}

impl Cnt {
    fn max(&self) -> u64 {
        match self.ty {
            "u8" => u8::MAX as u64,
            "u32" => u32::MAX as u64,
            _ => u64::MAX,
        }
    }
    fn grams(&self) -> BTreeSet<&'static str> {
        self.threads.iter().flatten().map(|o| o.1).collect()
    }
    fn label(&self) -> String {
        let t: Vec<String> =
            self.threads.iter().map(|t| t.iter().map(|o| format!("{}{}:{}", o.0, o.1, o.2)).collect::<Vec<_>>().join(",")).collect();
        format!("{} size={} h={} seed={} init={} weak={} {}", self.ty, self.size, self.h, self.seed, self.init, self.weak, t.join(" | "))
    }
    fn cmd(&self, env: &Env) -> Cmd {
        let dec = self.threads.iter().flatten().any(|o| o.0 == '-');
        let probes: Vec<String> =
            self.grams().iter().flat_map(|g| [format!("{}{g}:0", if dec { '-' } else { '+' }), format!("?{g}")]).collect();
        let mut a = strs(&[&"counter", &self.ty, &self.size, &self.h, &self.seed, &self.init, &probes.join(",")]);
        for t in &self.threads {
            a.push(t.iter().map(|o| format!("{}{}:{}", o.0, o.1, o.2)).collect::<Vec<_>>().join(","));
        }
        let mut c = api_cmd(env, &a);
        c.weak_fails = self.weak;
        c
    }
    /// Is there only one kind of update?
    fn up(&self) -> Option<bool> {
        let i = self.threads.iter().flatten().any(|o| o.0 == '+');
        let d = self.threads.iter().flatten().any(|o| o.0 == '-');
        match (i, d) {
            (true, false) => Some(true),
            (false, true) => Some(false),
            _ => None,
        }
    }
    fn judge(&self, o: &Outcome, exact: bool) -> Check {
        let v = lines(&ok_out(o)?)?;
        let v = v.first().ok_or("no result")?;
        let mut ret: BTreeMap<String, Vec<u64>> = BTreeMap::new();
        let mut sum: BTreeMap<String, u128> = BTreeMap::new();
        let mut total: u128 = 0;
        let mut last: BTreeMap<String, u64> = BTreeMap::new();
        for (ti, t) in self.threads.iter().enumerate() {
            last.clear();
            for (oi, op) in t.iter().enumerate() {
                let r = v["results"][ti][oi][2].as_u64().ok_or_else(|| format!("no result of operation {oi} of thread {ti}: {v}"))?;
                ret.entry(op.1.into()).or_default().push(r);
                *sum.entry(op.1.into()).or_insert(0) += op.2 as u128;
                total += op.2 as u128;
                // one thread sees its own updates
                if let (Some(b), Some(up)) = (last.get(op.1), self.up()) {
                    if (up && r < (*b).saturating_add(op.2).min(self.max())) || (!up && r > b.saturating_sub(op.2)) {
                        return Err(format!("{}: thread {ti} saw {b}, updated by {} and then saw {r}", op.1, op.2));
                    }
                }
                last.insert(op.1.into(), r);
            }
        }
        let max = self.max() as u128;
        let probe: BTreeMap<String, u64> = v["probes"]
            .as_array()
            .ok_or("no probes")?
            .iter()
            .map(|p| (p[1].as_str().unwrap_or("").to_string(), p[2].as_u64().unwrap_or(u64::MAX)))
            .collect();
        let maxes: BTreeMap<String, u64> = v["max_count"]
            .as_array()
            .ok_or("no maxima")?
            .iter()
            .map(|p| (p[0].as_str().unwrap_or("").to_string(), p[1].as_u64().unwrap_or(u64::MAX)))
            .collect();
        for g in self.grams() {
            let s = sum[g];
            let (pr, mx) = (probe[g] as u128, maxes[g] as u128);
            let init = self.init as u128;
            match self.up() {
                Some(true) => {
                    let low = (init + s).min(max);
                    let high = (init + total * self.h as u128).min(max);
                    let best = *ret[g].iter().max().unwrap() as u128;
                    if pr < low {
                        return Err(format!("{g}: stored {pr}, incremented by {s} in total from {init}"));
                    }
                    if best < low {
                        return Err(format!("{g}: the increments returned {:?}, their sum is {s} from {init}", ret[g]));
                    }
                    if pr > high || mx > high || best > high {
                        return Err(format!("{g}: stored {pr} (largest slot {mx}, returned {best}), all increments together make {high}"));
                    }
                    if mx < pr {
                        return Err(format!("{g}: largest slot {mx}, count {pr}"));
                    }
                    if exact && (pr != low || best != low) {
                        return Err(format!("{g}: stored {pr}, returned {best} at most, expected exactly {low}"));
                    }
                }
                Some(false) => {
                    let up = init.saturating_sub(s);
                    let low = init.saturating_sub(total * self.h as u128);
                    let best = *ret[g].iter().min().unwrap() as u128;
                    if pr > up || mx > up && self.h == 1 {
                        return Err(format!("{g}: remaining {pr} after decrements of {s} in total from {init}"));
                    }
                    if mx > up {
                        return Err(format!("{g}: a slot keeps {mx} after decrements of {s} in total from {init}"));
                    }
                    if best > up {
                        return Err(format!("{g}: the decrements returned {:?}, their sum is {s} from {init}", ret[g]));
                    }
                    if pr < low || best < low {
                        return Err(format!("{g}: remaining {pr}, returned {best}, from {init} all decrements together leave {low}"));
                    }
                    if exact && (pr != up || best != up) {
                        return Err(format!("{g}: remaining {pr}, returned {best} at least, expected exactly {up}"));
                    }
                }
                None => {
                    // both kinds: bounded by what one kind alone could have done
                    if mx > (init + total * self.h as u128).min(max) {
                        return Err(format!("{g}: a slot holds {mx} although all increments together make less"));
                    }
                }
            }
        }
        if let (Some(nz), Some(true)) = (v["nonzero"].as_u64(), self.up()) {
            let some = self.threads.iter().flatten().any(|o| o.2 > 0) || self.init > 0;
            let all = if self.init > 0 { self.size as u64 } else { (self.grams().len() * self.h) as u64 };
            if (nz == 0) == some || nz > all || (self.init > 0 && nz < self.size as u64) {
                return Err(format!("{nz} slots are not zero"));
            }
        }
        Ok(())
    }
}

pub fn c21(env: &Env) {
    if no_api(env) {
        // the commands are then judged by C01, C02 and C03; a few of their cases here
        let cs = gen::small_corpora();
        env.par("counts reported by topk", &cs, |ctx, c| {
            let paths = ctx.env.corpus(c);
            let k = Conf::new(1, 100, 2).th(0);
            let w = topk(c, 1, 100, 0);
            ctx.env.distinct(&describe(c));
            ctx.eval(&k.label("topk", c), &k.cmd(ctx.env, false, &paths), &|o| judge_ranked(&ok_out(o)?, &w));
        });
        return;
    }
    let q = env.quick();
    const G: [&str; 2] = ["a", "bc"];
    // 1. sequential: every sequence of operations, every starting value near the ends
    let mut progs: Vec<Vec<(char, &'static str, u64)>> = vec![];
    let amounts = |m: u64| vec![0, 1, 2, m / 2 + 1, m - 1, m];
    let mut jobs: Vec<Cnt> = vec![];
    for ty in ["u8", "u32", "u64"] {
        let m = Cnt { ty, size: 1, h: 1, seed: 0, init: 0, threads: vec![], weak: 0 }.max();
        progs.clear();
        for d in ['+', '-'] {
            for a in amounts(m) {
                for b in amounts(m) {
                    for g in G {
                        progs.push(vec![(d, "a", a), (d, g, b), (d, "a", 1)]);
                    }
                }
            }
        }
        for p in &progs {
            for (size, h) in [(1, 1), (1, 3), (2, 2), (64, 1), (64, 4), (4096, 5)] {
                for init in [0, 1, 7, m - 1, m] {
                    jobs.push(Cnt { ty, size, h, seed: 1 + (init ^ size as u64) % 5, init, threads: vec![p.clone()], weak: 0 });
                }
            }
        }
    }
    if q {
        jobs = jobs.into_iter().enumerate().filter(|(i, _)| i % 3 == 0).map(|x| x.1).collect();
    }
    // the same when each weak compare-exchange fails a number of times for no reason
    let spurious: Vec<Cnt> = jobs
        .iter()
        .enumerate()
        .filter(|(i, c)| i % if q { 11 } else { 3 } == 0 && c.init <= 7)
        .flat_map(|(_, c)| [1u32, 3, 20, 257].map(|w| Cnt { weak: w, ..c.clone() }))
        .collect();
    jobs.extend(spurious);
    let groups: Vec<&[Cnt]> = jobs.chunks(50).collect();
    env.par("one thread: amounts and starting values at the ends of the types", &groups, |ctx, g| {
        for c in g.iter() {
            let l = c.label();
            ctx.env.distinct(&l);
            // one hash function, or one n-gram in a large table: no collision with itself is possible for one
            let exact = c.h == 1 && c.grams().len() == 1;
            ctx.eval_api(&l, &c.cmd(ctx.env), &|o| c.judge(o, exact));
        }
    });
    // 2. two and three threads under every schedule
    let mut shapes: Vec<Vec<Vec<(char, &'static str, u64)>>> = vec![];
    for d in ['+', '-'] {
        shapes.push(vec![vec![(d, "a", 1)], vec![(d, "a", 1)]]);
        shapes.push(vec![vec![(d, "a", 1)], vec![(d, "a", 2)]]);
        shapes.push(vec![vec![(d, "a", 2)], vec![(d, "bc", 3)]]);
        shapes.push(vec![vec![(d, "a", 1), (d, "a", 1)], vec![(d, "a", 2)]]);
        shapes.push(vec![vec![(d, "a", 1), (d, "bc", 1)], vec![(d, "bc", 2)]]);
        shapes.push(vec![vec![(d, "a", 1), (d, "bc", 1)], vec![(d, "bc", 1), (d, "a", 1)]]);
        shapes.push(vec![vec![(d, "a", 1)], vec![(d, "a", 2)], vec![(d, "a", 4)]]);
        shapes.push(vec![vec![(d, "a", 1)], vec![(d, "a", 2)], vec![(d, "bc", 4)]]);
        if !q {
            shapes.push(vec![vec![(d, "a", 1), (d, "a", 2), (d, "a", 1)], vec![(d, "a", 4), (d, "a", 1)]]);
            shapes.push(vec![vec![(d, "a", 1), (d, "a", 2)], vec![(d, "a", 4), (d, "a", 1)], vec![(d, "a", 8)]]);
            shapes.push(vec![vec![(d, "a", 1)], vec![(d, "a", 1)], vec![(d, "a", 1)], vec![(d, "a", 1)]]);
        }
    }
    shapes.push(vec![vec![('+', "a", 3)], vec![('-', "a", 1)]]);
    shapes.push(vec![vec![('+', "a", 3), ('-', "a", 2)], vec![('-', "a", 1), ('+', "a", 1)]]);
    let mut jobs: Vec<(Cnt, bool)> = vec![];
    for s in &shapes {
        let ops: usize = s.iter().map(|t| t.len()).sum();
        let up = s[0][0].0 == '+';
        for (size, h) in [(64, 1), (1, 1), (64, 2), (1, 2), (2, 2), (64, 3), (3, 3)] {
            if h == 3 && (s.len() > 2 || ops > 3) && q {
                continue;
            }
            for (ty, init) in [("u32", 0u64), ("u64", 100), ("u8", 254), ("u32", u32::MAX as u64), ("u64", 2)] {
                let init = if up { init } else if init == 0 { 3 } else { init };
                if q && ty == "u64" && init == 100 && h > 1 {
                    continue;
                }
                let c = Cnt { ty, size, h, seed: 5, init, threads: s.clone(), weak: 0 };
                let exact = h == 1 && c.grams().len() == 1 && c.up().is_some();
                if h == 1 && ops <= 3 {
                    for weak in [1, 2] {
                        jobs.push((Cnt { weak, ..c.clone() }, exact));
                    }
                }
                jobs.push((c, exact));
            }
        }
    }
    // more hash functions
    for h in [4usize, 5, 8] {
        for d in ['+', '-'] {
            for (size, ty) in [(64, "u32"), (3, "u8"), (1 << 12, "u64")] {
                for amounts in [(1, 1), (1, 2)] {
                    let threads = vec![vec![(d, "a", amounts.0)], vec![(d, "a", amounts.1)]];
                    jobs.push((Cnt { ty, size, h, seed: 5, init: if d == '+' { 0 } else { 100 }, threads, weak: 0 }, false));
                }
            }
        }
    }
    // many updates of one slot in the way of one another
    for n in 4..=if q { 4usize } else { 6 } {
        for d in ['+', '-'] {
            let threads: Vec<Vec<(char, &'static str, u64)>> = (0..n).map(|i| vec![(d, "a", 1 << i)]).collect();
            jobs.push((Cnt { ty: "u32", size: 64, h: 1, seed: 5, init: if d == '+' { 0 } else { 1000 }, threads, weak: 0 }, true));
        }
    }
    let b = bounds(env);
    env.par("two to four threads, every schedule", &jobs, |ctx, (c, exact)| {
        let secs = if ctx.env.quick() { 5.0 } else { 30.0 };
        ctx.env.distinct(&c.label());
        let bs: Vec<Option<u32>> = if c.threads.len() > 2 || c.h > 1 { b.clone() } else { vec![None] };
        for bd in bs {
            if !explore_cnt(ctx, c, *exact, bd, secs) {
                return;
            }
        }
    });
    // 3. different n-grams are kept apart: exact with a large table and one hash function
    let mut jobs = vec![];
    for seed in 0..if q { 8 } else { 60 } {
        for h in [1usize, 2, 5] {
            jobs.push((seed, h));
        }
    }
    const WORDS: [&str; 12] = ["a", "b", "ab", "ba", "aa", "abc", "cab", "bca", "aab", "aba", "c", "cc"];
    env.par("many n-grams in a large table are counted exactly", &jobs, |ctx, (seed, h)| {
        let t: Vec<(char, &'static str, u64)> = WORDS.iter().enumerate().map(|(i, g)| ('+', *g, i as u64 + 1)).collect();
        let mut u = t.clone();
        u.reverse();
        let c = Cnt { ty: "u32", size: 1 << 22, h: *h, seed: *seed, init: 0, threads: vec![t, u], weak: 0 };
        ctx.env.distinct(&c.label());
        ctx.eval_api(&c.label(), &c.cmd(ctx.env), &|o| {
            c.judge(o, false)?;
            // hash functions over a table of four million slots: the twelve n-grams do not meet, and the
            // smallest of their slots is exact
            let v = lines(&ok_out(o)?)?;
            for (i, p) in WORDS.iter().enumerate() {
                let want = 2 * (i as u64 + 1);
                let got = v[0]["probes"].as_array().and_then(|a| a.iter().find(|x| x[1] == *p)).and_then(|x| x[2].as_u64());
                if got != Some(want) {
                    return Err(format!("{p} was incremented by {want}, stored {got:?}"));
                }
            }
            Ok(())
        });
    });
}

fn explore_cnt(ctx: &mut Ctx, c: &Cnt, exact: bool, b: Option<u32>, secs: f64) -> bool {
    let l = match b {
        Some(k) => format!("counter {} [bound {k}]", c.label()),
        None => format!("counter {} [all schedules]", c.label()),
    };
    let cmd = c.cmd(ctx.env);
    ctx.explore_api(&l, &cmd, b, secs, &|o| c.judge(o, exact))
}

// ---------------------------------------------------------------- C22

pub fn c22(env: &Env) {
    let q = env.quick();
    if !no_api(env) {
        let mut jobs: Vec<Vec<String>> = vec![];
        // (k, n-grams, largest count, depth): operations = 1 + ngrams * (counts + 1)
        let spaces: &[(usize, usize, usize, usize)] = if q {
            &[(1, 3, 2, 6), (2, 3, 2, 6), (3, 3, 2, 6), (2, 4, 3, 5), (3, 4, 2, 5), (1, 2, 4, 6), (5, 4, 2, 5), (usize::MAX, 3, 2, 5)]
        } else {
            &[(1, 3, 2, 7), (2, 3, 2, 7), (3, 3, 2, 7), (2, 4, 3, 6), (3, 4, 2, 6), (1, 2, 4, 7), (4, 5, 2, 6), (2, 5, 1, 7), (5, 4, 2, 6), (3, 5, 2, 6), (usize::MAX, 3, 2, 6)]
        };
        for (k, g, m, d) in spaces {
            let ops = 1 + g * (m + 1);
            for f in 0..ops {
                for s in 0..ops {
                    jobs.push(strs(&[&"topk", k, g, m, d, &f, &s]));
                }
            }
            for f in 0..ops {
                jobs.push(strs(&[&"topk", k, g, m, &1, &f]));
            }
        }
        enumerate(env, "all operation sequences", &jobs);
        let mut jobs: Vec<Vec<String>> = vec![];
        for k in gen::ladder(if q { 300 } else { 3000 }).into_iter().filter(|k| *k > 0) {
            for n in gen::ladder(if q { 1025 } else { 5000 }) {
                if n > 4 * k + 20 || n + 12 < k {
                    continue;
                }
                for pat in 0..8 {
                    jobs.push(strs(&[&"topkbig", &k, &n, &pat]));
                }
            }
        }
        enumerate(env, "long operation sequences", &jobs);
    }
    // through the command: ties and replacements
    let mut jobs = vec![];
    for k in 1..=4usize {
        for code in 0..3u32.pow(5) {
            jobs.push((k, code));
        }
    }
    env.par("ties at the cut-off through topk", &jobs, |ctx, (k, code)| {
        let w = ["a", "b", "c", "d", "e"];
        let mut x = *code;
        let mut docs = vec![vec![], vec![]];
        for g in w {
            let n = x % 3;
            x /= 3;
            for i in 0..n {
                docs[i as usize].push(g);
            }
        }
        let c: Corpus = docs.iter().map(|d| File { docs: vec![t(&d.join(" "))] }).collect();
        let paths = ctx.env.corpus(&c);
        for (th, j) in [(0, 1), (0, 2), (1, 1)] {
            let f = Conf::new(1, *k, j).th(th);
            let w = topk(&c, 1, *k, th);
            ctx.env.distinct(&f.label("topk", &c));
            ctx.eval(&f.label("topk", &c), &f.cmd(ctx.env, false, &paths), &|o| judge_ranked(&ok_out(o)?, &w));
        }
    });
}
