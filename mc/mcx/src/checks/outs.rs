//! C14 output files are protected, C15 output files hold exactly the results.
use super::cmds::*;
use super::ranked::{bounds, describe};
use super::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

/// What a directory tree holds.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link(String),
    Other,
}
pub type Tree = BTreeMap<String, Node>;

pub fn snap(dir: &Path) -> Tree {
    fn walk(base: &Path, rel: &Path, t: &mut Tree) {
        if let Ok(rd) = std::fs::read_dir(base.join(rel)) {
            for e in rd.flatten() {
                let r = rel.join(e.file_name());
                let full = base.join(&r);
                let name = r.to_string_lossy().into_owned();
                match std::fs::symlink_metadata(&full) {
                    Ok(m) if m.file_type().is_symlink() => {
                        t.insert(name, Node::Link(std::fs::read_link(&full).map(|l| l.to_string_lossy().into_owned()).unwrap_or_default()));
                    }
                    Ok(m) if m.is_dir() => {
                        t.insert(name, Node::Dir);
                        walk(base, &r, t);
                    }
                    Ok(m) if m.is_file() => {
                        t.insert(name, Node::File(std::fs::read(&full).unwrap_or_default()));
                    }
                    Ok(_) => {
                        t.insert(name, Node::Other);
                    }
                    Err(_) => {}
                }
            }
        }
    }
    let mut t = Tree::new();
    walk(dir, Path::new(""), &mut t);
    t
}

pub fn lay(dir: &Path, t: &Tree) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for (n, x) in t {
        let p = dir.join(n);
        match x {
            Node::Dir => std::fs::create_dir_all(&p).unwrap(),
            Node::File(b) => {
                if let Some(d) = p.parent() {
                    std::fs::create_dir_all(d).unwrap();
                }
                std::fs::write(&p, b).unwrap();
            }
            Node::Link(to) => {
                if let Some(d) = p.parent() {
                    std::fs::create_dir_all(d).unwrap();
                }
                std::os::unix::fs::symlink(to, &p).unwrap();
            }
            Node::Other => {}
        }
    }
}

/// The names that differ between two trees.
pub fn diff(a: &Tree, b: &Tree) -> Vec<String> {
    let mut v = vec![];
    for (n, x) in a {
        match b.get(n) {
            None => v.push(format!("{n} is gone")),
            Some(y) if x != y => v.push(format!("{n} has changed")),
            _ => {}
        }
    }
    for n in b.keys() {
        if !a.contains_key(n) {
            v.push(format!("{n} has appeared"));
        }
    }
    v
}

/// Only `out` (and directories leading to it) may differ.
fn only(a: &Tree, b: &Tree, out: Option<&str>) -> Check {
    let d: Vec<String> = diff(a, b)
        .into_iter()
        .filter(|x| {
            let n = x.split(' ').next().unwrap();
            match out {
                Some(o) => !(n == o || (Path::new(o).starts_with(n) && matches!(b.get(n), Some(Node::Dir)))),
                None => true,
            }
        })
        .collect();
    if d.is_empty() {
        Ok(())
    } else {
        Err(format!("other files were touched: {}", d.join(", ")))
    }
}

fn own(ctx: &Ctx) -> PathBuf {
    ctx.env.scratch.join(format!("own{}", ctx.worker))
}

fn file_bytes(f: &File) -> Vec<u8> {
    gz(&f.docs.iter().flat_map(|d| d.line().into_bytes()).collect::<Vec<u8>>())
}

/// Input files of a corpus, under fixed names.
fn inputs(c: &Corpus, t: &mut Tree) -> Vec<String> {
    c.iter()
        .enumerate()
        .map(|(i, f)| {
            let n = format!("i{i}.json.gz");
            t.insert(n.clone(), Node::File(file_bytes(f)));
            n
        })
        .collect()
}

const OLD: [&[u8]; 4] = [b"", b"x", b"{\"tokens\":[\"z\"],\"string\":\"z\",\"count\":9,\"rank\":1}\n", b"\x00\xff\x1f\x8b no text \n\n\n"];

fn old_contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = OLD.iter().map(|b| b.to_vec()).collect();
    v.push((0..20_000u32).map(|i| (i % 251) as u8).collect());
    v
}

/// Files with names that are made from the name of the output file.
fn neighbours(t: &mut Tree, out: &str) {
    let p = Path::new(out);
    let name = p.file_name().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
    let stem = p.file_stem().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
    let parent = p.parent().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
    if name.is_empty() || (!parent.is_empty() && !matches!(t.get(&parent), Some(Node::Dir))) {
        return;
    }
    let mut v: Vec<String> = vec!["tmp".into(), "temp".into(), ".tmp".into(), "out.tmp".into()];
    for x in ["tmp", "temp", "bak", "part", "partial", "lock", "old", "new", "orig", "swp", "0", "1", "gz", "json", "txt"] {
        v.push(format!("{name}.{x}"));
        v.push(format!("{stem}.{x}"));
        v.push(format!(".{name}.{x}"));
        v.push(format!("{x}.{name}"));
    }
    v.extend([format!("{name}~"), format!("#{name}#"), format!(".{name}"), format!("_{name}"), stem]);
    for n in v {
        let n = if parent.is_empty() { n } else { format!("{parent}/{n}") };
        t.entry(n.clone()).or_insert(Node::File(format!("keep {n}").into_bytes()));
    }
}

pub fn c14(env: &Env) {
    let corp: Corpus = vec![file(&["a b", "b a a"]), file(&["c", "a b"])];
    // 1. existing output files, not forced
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Inp {
        Good,
        BadLine,
        Missing,
        Dir,
    }
    struct Job {
        w: W,
        spell: usize,
        old: usize,
        inp: Inp,
    }
    let spells: Vec<(&str, &str)> = vec![
        ("o.jsonl", "o.jsonl"),
        ("./o.jsonl", "o.jsonl"),
        ("d/o.jsonl", "d/o.jsonl"),
        ("d/../o.txt", "o.txt"),
        ("l.jsonl", "o.jsonl"),
        ("ABS/o.json.gz", "o.json.gz"),
        ("d/sub/../o.x.y", "d/o.x.y"),
        ("-o.jsonl", "-o.jsonl"),
        ("ö ü.jsonl", "ö ü.jsonl"),
        // for count, search and stats names without extension too; for topk and botk those are directories
        ("plain", "plain"),
        ("d/.hidden", "d/.hidden"),
        ("d", "d/GEN"),
        ("d/", "d/GEN"),
        ("e.jsonl", "e.jsonl/GEN"),
        ("newdir", "newdir/GEN"),
        ("d/sub/", "d/sub/GEN"),
        ("", "GEN"),
    ];
    let olds = old_contents();
    let mut jobs = vec![];
    for w in WITH_OUT {
        for spell in 0..spells.len() {
            for old in 0..olds.len() {
                for inp in [Inp::Good, Inp::BadLine, Inp::Missing, Inp::Dir] {
                    jobs.push(Job { w, spell, old, inp });
                }
            }
        }
    }
    env.par("existing output file, not forced", &jobs, |ctx, jb| {
        let (given, real) = spells[jb.spell];
        let ranked = matches!(jb.w, W::Topk | W::Botk);
        let gen = real.ends_with("GEN");
        if gen && !ranked {
            return;
        }
        let dir = own(ctx);
        let mut tree = Tree::new();
        tree.insert("d".into(), Node::Dir);
        tree.insert("d/sub".into(), Node::Dir);
        tree.insert("other.jsonl".into(), Node::File(b"other".to_vec()));
        tree.insert("d/other.jsonl".into(), Node::File(b"other2".to_vec()));
        if given == "l.jsonl" {
            tree.insert("l.jsonl".into(), Node::Link("o.jsonl".into()));
        }
        if given == "e.jsonl" {
            tree.insert("e.jsonl".into(), Node::Dir);
        }
        let mut names = inputs(&corp, &mut tree);
        match jb.inp {
            Inp::Good => {}
            Inp::BadLine => {
                tree.insert("i1.json.gz".into(), Node::File(gz(b"{\"text\":\"a\"}\n{\n")));
            }
            Inp::Missing => names[1] = "nothing.json.gz".into(),
            Inp::Dir => names = vec![".".into()],
        }
        let given = given.replace("ABS", dir.to_str().unwrap());
        for m in [3usize, 4, 5] {
            for j in [1usize, 2] {
                if ctx.env.quick() && (m + j + jb.old + jb.spell) % 3 != 0 {
                    continue;
                }
                let mut r = R::new(jb.w).j(j).mode(m, &given);
                r.limit = [None, Some(1)][j % 2];
                // the name generated for a directory is found by a first run
                let mut tree = tree.clone();
                if gen {
                    lay(&dir, &tree);
                    let mut good = r.clone();
                    good.quiet = true;
                    let mut cmd = good.cmd(ctx.env, &["i0.json.gz".to_string()]);
                    cmd.cwd = dir.clone();
                    let o = ctx.run(&cmd);
                    let after = snap(&dir);
                    let new: Vec<&String> = after.iter().filter(|(k, v)| !tree.contains_key(*k) && matches!(v, Node::File(_))).map(|x| x.0).collect();
                    if o.code != 0 || new.len() != 1 {
                        // whether that is right is for C15 to say
                        return;
                    }
                    let n = new[0].clone();
                    tree.insert(n, Node::File(olds[jb.old].clone()));
                    if let Some(p) = real.strip_suffix("/GEN") {
                        tree.insert(p.to_string(), Node::Dir);
                    }
                } else {
                    tree.insert(real.into(), Node::File(olds[jb.old].clone()));
                    neighbours(&mut tree, real);
                }
                let mut cmd = r.cmd(ctx.env, &names);
                cmd.cwd = dir.clone();
                let label = format!("out={given:?} old#{} input {:?} {}", jb.old, jb.inp, r.label());
                ctx.env.distinct(&label);
                let (d1, t1) = (dir.clone(), tree.clone());
                let (d2, t2) = (dir.clone(), tree.clone());
                ctx.eval_prep(&label, &cmd, &move || lay(&d1, &t1), &move |o| {
                    let d = diff(&t2, &snap(&d2));
                    if !d.is_empty() {
                        return Err(format!("without --force: {} (exit status {})", d.join(", "), o.code));
                    }
                    must_fail(o)
                });
            }
        }
    });
    // 2. nothing but the output file is touched, whatever happens
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum End {
        Good,
        BadLine,
        Missing,
        ReadError,
        WriteError,
        StdoutError,
        Dies,
    }
    let outs: Vec<(Option<&str>, bool)> = vec![
        (None, false),
        (None, true),
        (Some("o.jsonl"), false),
        (Some("o.jsonl"), true),
        (Some("d/o.jsonl"), true),
        (Some("new/er/o.jsonl"), false),
        (Some("new/er/o.jsonl"), true),
        (Some("old.jsonl"), true),
        (Some("d/old.jsonl"), true),
    ];
    let mut jobs: Vec<(W, usize, End, usize)> = vec![];
    for w in ALL {
        for o in 0..outs.len() {
            for e in [End::Good, End::BadLine, End::Missing, End::ReadError, End::WriteError, End::StdoutError, End::Dies] {
                for m in 0..3 {
                    jobs.push((w, o, e, m));
                }
            }
        }
    }
    env.par("nothing else is touched", &jobs, |ctx, (w, o, e, m)| {
        let (out, force) = outs[*o];
        if *w == W::Unique && (out.is_some() || force) {
            return;
        }
        let dir = own(ctx);
        let mut tree = Tree::new();
        for n in ["d", "d/deep", "empty"] {
            tree.insert(n.into(), Node::Dir);
        }
        for n in ["old.jsonl", "d/old.jsonl", "d/deep/x", ".hidden", "i0.json.gz.bak", "o.jsonl.tmp", "old.jsonl~"] {
            tree.insert(n.into(), Node::File(format!("keep {n}").into_bytes()));
        }
        tree.insert("link".into(), Node::Link("d/old.jsonl".into()));
        let mut names = inputs(&corp, &mut tree);
        if let Some(o) = out {
            neighbours(&mut tree, o);
        }
        let mut r = R::new(*w).j(1 + *m % 2);
        r.json = *m != 1;
        r.quiet = *m == 2;
        r.out = out.map(|s| s.to_string());
        r.force = force;
        let mut cmd = Cmd::default();
        match e {
            End::Good => {}
            End::BadLine => {
                tree.insert("i1.json.gz".into(), Node::File(gz(b"{\"text\":\"a\"}\n[1,\n")));
            }
            End::Missing => names[1] = "nothing.json.gz".into(),
            End::ReadError => {
                cmd.tracked = vec![names[1].clone()];
                cmd.faults = vec![Fault { class: F_READ, track: 0, sticky: 1, nth: 0, action: 5 }];
            }
            End::WriteError => match out {
                Some(o) => {
                    cmd.tracked = vec![o.to_string()];
                    cmd.faults = vec![Fault { class: F_WRITE, track: 0, sticky: 1, nth: 0, action: 28 }];
                }
                None => return,
            },
            End::StdoutError => cmd.faults = vec![Fault { class: F_WRITE, track: TRACK_STDOUT as u8, sticky: 1, nth: 0, action: 28 }],
            End::Dies => {
                if !matches!(w, W::Topk | W::Botk | W::Unique) {
                    return;
                }
                r.n = usize::MAX;
            }
        }
        let (tracked, faults) = (cmd.tracked, cmd.faults);
        let mut cmd = r.cmd(ctx.env, &names);
        cmd.tracked = tracked;
        cmd.faults = faults;
        cmd.cwd = dir.clone();
        let label = format!("end {e:?} force={force} out={out:?} {}", r.label());
        ctx.env.distinct(&label);
        let (d1, t1) = (dir.clone(), tree.clone());
        ctx.eval_prep(&label, &cmd, &move || lay(&d1, &t1), &|o| {
            if let Some(h) = o.hang() {
                return Err(h);
            }
            only(&tree, &snap(&dir), out)
        });
    });
    // 3. every schedule of a forced and of a fresh run
    let secs = if env.quick() { 1.5 } else { 60.0 };
    let mut jobs: Vec<(W, bool, bool)> = vec![];
    for w in WITH_OUT {
        for force in [false, true] {
            for bad in [false, true] {
                jobs.push((w, force, bad));
            }
        }
    }
    env.par("schedules", &jobs, |ctx, (w, force, bad)| {
        let dir = own(ctx);
        let mut tree = Tree::new();
        tree.insert("old.jsonl".into(), Node::File(b"keep".to_vec()));
        let names = inputs(&vec![file(&["a"]), file(&["b"])], &mut tree);
        if *bad {
            tree.insert("i1.json.gz".into(), Node::File(gz(b"{\n")));
        }
        let out = if *force { "old.jsonl" } else { "o.jsonl" };
        let mut r = R::new(*w).j(2).out(out);
        r.force = *force;
        let mut cmd = r.cmd(ctx.env, &names);
        cmd.cwd = dir.clone();
        for b in bounds(ctx.env) {
            if ctx.env.over() {
                break;
            }
            let l = format!("{w:?} force={force} bad={bad} [{b:?}]");
            let ok = ctx.explore_prep(&l, &cmd, b, secs / 2.0, &|| lay(&dir, &tree), &|o| {
                if let Some(h) = o.hang() {
                    return Err(h);
                }
                only(&tree, &snap(&dir), Some(out))
            });
            if !ok {
                break;
            }
        }
    });
}

// ---------------------------------------------------------------- readable output

fn commas(n: u64) -> String {
    let s = n.to_string();
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 {
            o.push(',');
        }
        o.push(c);
    }
    o
}

/// "[i/n] rest" lines in any order, each number once: the rests, sorted.
fn numbered(lines: &[&str], n: usize) -> Result<Vec<String>, String> {
    let mut seen = BTreeSet::new();
    let mut v = vec![];
    for l in lines {
        let (num, rest) = l.strip_prefix('[').and_then(|l| l.split_once("] ")).ok_or_else(|| format!("unexpected line {l:?}"))?;
        let (i, m) = num.split_once('/').ok_or_else(|| format!("unexpected line {l:?}"))?;
        if m != n.to_string() || !seen.insert(i.to_string()) || !(1..=n).any(|k| k.to_string() == i) {
            return Err(format!("line {l:?}: wrong numbering, there are {n} results"));
        }
        v.push(rest.to_string());
    }
    if v.len() != n {
        return Err(format!("{} results shown instead of {n}", v.len()));
    }
    v.sort();
    Ok(v)
}

/// What is shown without --json has to be the same result.
pub fn judge_readable(r: &R, c: &Corpus, names: &[String], out: &str) -> Check {
    let ls: Vec<&str> = out.lines().collect();
    let same = |got: Vec<String>, mut want: Vec<String>| -> Check {
        want.sort();
        if got == want {
            Ok(())
        } else {
            Err(format!("shows {got:?} but the result is {want:?}"))
        }
    };
    match r.w {
        W::Topk | W::Botk => {
            let v = if r.w == W::Topk { topk(c, r.n, 5, 0) } else { botk(c, r.n, 5, u32::MAX as u64) };
            let want: Vec<(String, u64)> = v.iter().map(|(g, n)| (format!("{:?}", g.join(" ")), *n)).collect();
            if ls.len() != want.len() {
                return Err(format!("{} results shown instead of {}", ls.len(), want.len()));
            }
            for (i, (l, (g, n))) in ls.iter().zip(&want).enumerate() {
                let head = format!("[{}/{}] {g} (count ", i + 1, want.len());
                let rest = l.strip_prefix(&head).ok_or_else(|| format!("line {l:?} should start with {head:?}"))?;
                let num: String = rest.chars().filter(|c| c.is_ascii_digit()).collect();
                if num != n.to_string() {
                    return Err(format!("line {l:?}: the count is {n}"));
                }
            }
            Ok(())
        }
        W::Count => {
            let m = count(c, &["a", "b a"]);
            same(numbered(&ls, m.len())?, m.iter().map(|(k, n)| format!("{:?} (count = {n})", k.join(" "))).collect())
        }
        W::Search | W::Locate => {
            let m = search(c, &["a", "b"]);
            let heads: Vec<&str> = ls.iter().filter(|l| l.starts_with('[')).copied().collect();
            same(numbered(&heads, m.len())?, m.iter().map(|(k, (n, _))| format!("{k:?} (count = {n})")).collect())?;
            // the lines below each head are its locations
            let mut cur: Option<String> = None;
            let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for l in &ls {
                if l.starts_with('[') {
                    let p = l.split('"').nth(1).unwrap_or("").to_string();
                    got.insert(p.clone(), vec![]);
                    cur = Some(p);
                } else {
                    let p = cur.clone().ok_or_else(|| format!("unexpected line {l:?}"))?;
                    got.get_mut(&p).unwrap().push(l.trim_start_matches(|c: char| !c.is_ascii() || c == ' ').to_string());
                }
            }
            for (p, (_, per)) in &m {
                let mut want: Vec<String> = vec![];
                if r.w == W::Locate {
                    for (f, v) in per {
                        for (line, text, ms) in v {
                            want.push(format!("[{}, line {line}, {} matches] {text:?}", names[*f], ms.len()));
                        }
                    }
                }
                let mut g = got.remove(p).unwrap_or_default();
                g.sort();
                same(g, want).map_err(|e| format!("{p:?}: {e}"))?;
            }
            Ok(())
        }
        W::Stats => {
            let s = stats(c);
            for (k, v) in [
                ("total tokens", s.tokens),
                ("total documents", s.documents),
                ("total bytes", s.bytes),
                ("max tokens per document", s.max),
                ("min tokens per document", s.min),
            ] {
                let want = format!("{k}: {}", commas(v));
                if !ls.contains(&want.as_str()) {
                    return Err(format!("there is no line {want:?} in {}", clip(out)));
                }
            }
            let mut sect = "";
            let mut got: BTreeMap<&str, Vec<(String, u64, u64)>> = BTreeMap::new();
            for l in &ls {
                if *l == "max token documents:" || *l == "min token documents:" {
                    sect = &l[..3];
                    got.insert(sect, vec![]);
                } else if sect.is_empty() {
                    continue;
                } else if let Some(p) = l.trim_start_matches([' ', '-']).strip_prefix("path: ") {
                    got.get_mut(sect).unwrap().push((p.trim_matches('"').to_string(), 0, 0));
                } else if let Some(n) = l.trim().strip_prefix("line: ") {
                    if let Some(x) = got.get_mut(sect).unwrap().last_mut() {
                        x.1 = n.parse().unwrap_or(0);
                    }
                } else if let Some(n) = l.trim().strip_prefix("tokens: ") {
                    if let Some(x) = got.get_mut(sect).unwrap().last_mut() {
                        x.2 = n.parse().unwrap_or(u64::MAX - 1);
                    }
                }
            }
            for (k, want, n) in [("max", &s.max_docs, s.max), ("min", &s.min_docs, s.min)] {
                let mut w: Vec<(String, u64, u64)> = want.iter().map(|(f, l)| (names[*f].clone(), *l, n)).collect();
                let mut g = got.remove(k).ok_or_else(|| format!("no {k} token documents shown"))?;
                w.sort();
                g.sort();
                if w != g {
                    return Err(format!("{k} token documents shown: {g:?}, but they are {w:?}"));
                }
            }
            Ok(())
        }
        W::Unique => {
            let n = ngram_counts(c, r.n).len();
            let num: String = out.chars().filter(|c| c.is_ascii_digit()).collect();
            if num != n.to_string() {
                return Err(format!("shows {out:?}, there are {n} distinct n-grams"));
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C15

pub fn c15(env: &Env) {
    let corp = gen::small_corpora();
    let olds = old_contents();
    // 1. contents
    env.par("contents", &corp, |ctx, c| {
        let paths = ctx.env.corpus(c);
        let h = hash64(describe(c).as_bytes()) as usize;
        for (i, w) in ALL.iter().enumerate() {
            for m in 0..6 {
                if *w == W::Unique && m >= 3 {
                    continue;
                }
                if ctx.env.quick() && (h + i + m) % 3 != 0 {
                    continue;
                }
                let name = format!("out{}/o.jsonl", ctx.worker);
                let mut r = R::new(*w).j(1 + (h + m) % 3).mode(m, &name);
                r.n = 1 + (h / 3 + m) % 2;
                // 0: nothing there, 1..: old content to be replaced
                let old = (h / 5 + m + i) % (olds.len() + 1);
                r.force = r.out.is_some() && (old > 0 || h % 2 == 0);
                let prep = {
                    let p = ctx.env.scratch.join(&name);
                    let o = if old > 0 { Some(olds[old - 1].clone()) } else { None };
                    move || {
                        let _ = std::fs::remove_dir_all(p.parent().unwrap());
                        if let Some(o) = &o {
                            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                            std::fs::write(&p, o).unwrap();
                        }
                    }
                };
                let j = r.judge(c, &paths);
                let p = ctx.env.scratch.join(&name);
                let l = format!("contents old#{old} force={} {} {}", r.force, r.label(), describe(c));
                ctx.env.distinct(&l);
                ctx.eval_prep(&l, &r.cmd(ctx.env, &paths), &prep, &|o| {
                    let s = ok_out(o)?;
                    if r.out.is_some() {
                        let b = std::fs::read_to_string(&p).map_err(|e| format!("no output file: {e}"))?;
                        j(&b).map_err(|e| format!("output file: {e}"))?;
                        if r.json && b != s {
                            return Err(format!("the output file holds {:?} but --json printed {:?}", clip(&b), clip(&s)));
                        }
                    }
                    if r.json {
                        j(&s)
                    } else if r.out.is_some() && (r.quiet || matches!(r.w, W::Topk | W::Botk)) {
                        if s.is_empty() {
                            Ok(())
                        } else {
                            Err(format!("printed {:?}", clip(&s)))
                        }
                    } else if r.quiet {
                        Ok(())
                    } else {
                        judge_readable(&r, c, &paths, &s).map_err(|e| format!("readable output: {e}"))
                    }
                });
            }
        }
    });
    // 2. generated names
    let vals: Vec<u64> = if env.quick() { vec![1, 2, 11, 12] } else { vec![1, 2, 3, 11, 12, 21, 111, 112] };
    let lims = [None, Some(0u64), Some(1), Some(11)];
    let seeds = [None, Some(0u64), Some(1), Some(11), Some(u64::MAX)];
    let mut jobs: Vec<(W, u64, u64, u64, Option<u64>, Option<u64>)> = vec![];
    for w in [W::Topk, W::Botk] {
        for n in &vals {
            for k in &vals {
                for h in &vals {
                    for l in lims {
                        for s in seeds {
                            if env.quick() && (n + k + h + l.unwrap_or(7) + s.unwrap_or(3) % 13) % 4 != 0 {
                                continue;
                            }
                            jobs.push((w, *n, *k, *h, l, s));
                        }
                    }
                }
            }
        }
    }
    // parameters that become the same when digits run together, wrap around or are cut off
    for w in [W::Topk, W::Botk] {
        for (n, k) in [(1u64, 111u64), (11, 11), (111, 1), (1, 1111), (111, 11), (1, 256), (1, 257), (257, 1), (256, 2), (1, 65_537), (65_537, 1), (2, 1000)] {
            for h in [1u64, 11, 65, 75, 129, 139, 193, 255] {
                for l in [None, Some(1u64), Some(11), Some(257), Some((1 << 32) + 1), Some(u32::MAX as u64)] {
                    for s in [None, Some(1u64), Some(11), Some(257), Some((1 << 32) + 1), Some((1 << 53) + 1), Some(1 << 53)] {
                        let x = n + k + h + l.unwrap_or(3) % 1013 + s.unwrap_or(5) % 1019;
                        if env.quick() && x % 9 != 0 && (n, k) != (11, 11) && (n, k) != (1, 111) || h > 80 && (n > 100 || k > 200) {
                            continue;
                        }
                        jobs.push((w, n, k, h, l, s));
                    }
                }
            }
        }
    }
    jobs.sort_unstable_by_key(|j| (j.0 == W::Topk, j.1, j.2, j.3, j.4, j.5));
    jobs.dedup();
    let input = env.put(&file(&["a b", "b"]), 0);
    let seen: Mutex<BTreeMap<(W, String), String>> = Mutex::new(BTreeMap::new());
    env.par("generated names", &jobs, |ctx, (w, n, k, h, l, s)| {
        let key = hash64(format!("{n} {k} {h} {l:?} {s:?}").as_bytes()) as usize;
        let shape = key % 5;
        let base = format!("gen{}", ctx.worker);
        let given = match shape {
            0 => format!("{base}/there"),
            1 => format!("{base}/there/"),
            2 => format!("{base}/new"),
            3 => format!("{base}/new/er/dir"),
            _ => format!("{base}/with.ext"),
        };
        let mut cmd = ctx.env.cmd(&[if *w == W::Topk { "topk" } else { "botk" }, "--size", "1KiB", "-j", "1", "-q"], &[]);
        cmd = cmd.arg("-n").arg(n).arg("-k").arg(k).arg("-h").arg(h);
        if let Some(l) = l {
            cmd = cmd.arg("-l").arg(l);
        }
        if let Some(s) = s {
            cmd = cmd.arg("--seed").arg(s);
        }
        cmd = cmd.arg("-o").arg(&given).arg("--").arg(&input);
        let root = ctx.env.scratch.join(&base);
        let given_dir = ctx.env.scratch.join(&given);
        let r2 = root.clone();
        let params = format!("n={n} k={k} hashes={h} limit={l:?} seed={s:?}");
        ctx.env.distinct(&params);
        ctx.eval_prep(
            &format!("generated name {w:?} {params} out={given}"),
            &cmd,
            &move || {
                let _ = std::fs::remove_dir_all(&r2);
                for d in ["there", "with.ext"] {
                    std::fs::create_dir_all(r2.join(d)).unwrap();
                }
            },
            &|o| {
                ok_out(o)?;
                let t = snap(&root);
                let f: Vec<&String> = t.iter().filter(|x| !matches!(x.1, Node::Dir)).map(|x| x.0).collect();
                if f.len() != 1 {
                    return Err(format!("files after the run: {f:?}"));
                }
                let p = root.join(f[0]);
                if p.parent() != Some(Path::new(given_dir.to_str().unwrap().trim_end_matches('/'))) {
                    return Err(format!("the results are in {}, not directly in {given}", p.display()));
                }
                let name = p.file_name().unwrap().to_string_lossy().into_owned();
                if !name.ends_with(".jsonl") {
                    return Err(format!("the file is called {name}"));
                }
                let mut m = seen.lock().unwrap();
                let e = m.entry((*w, name.clone())).or_insert_with(|| params.clone());
                if *e != params {
                    return Err(format!("{params} and {e} both write {name}"));
                }
                Ok(())
            },
        );
    });
    // 3. failing writes
    let many: Corpus = vec![File { docs: (0..40).map(|i| t(&format!("a b a{i} a b{}", i % 7))).collect() }, file(&["b a b"])];
    let few: Corpus = vec![file(&["a b", "b a"])];
    struct WF {
        w: W,
        many: bool,
        m: usize,
        stdout: bool,
        nth: u32,
        sticky: u8,
        action: i32,
        class: u8,
        old: bool,
    }
    let mut jobs = vec![];
    for w in ALL {
        for many in [false, true] {
            for m in 0..6 {
                if w == W::Unique && m >= 3 {
                    continue;
                }
                for stdout in [false, true] {
                    if !stdout && m < 3 {
                        continue;
                    }
                    let top = 12;
                    for nth in 0..top {
                        for (action, sticky) in [(28, 0u8), (28, 1), (5, 0), (5, 1), (27, 1), (122, 0), (32, 1), (A_SHORT, 0), (A_SHORT, 1), (4, 0)] {
                            if env.quick() && (nth as usize + m + action as usize + sticky as usize) % 3 != 0 && nth > 1 {
                                continue;
                            }
                            jobs.push(WF { w, many, m, stdout, nth, sticky, action, class: F_WRITE, old: m % 2 == 0 });
                        }
                    }
                    if !stdout {
                        for action in [13, 28, 30, 24, 5, 2, 21] {
                            jobs.push(WF { w, many, m, stdout, nth: 0, sticky: 1, action, class: F_OPEN, old: m % 2 == 0 });
                        }
                    }
                }
            }
        }
    }
    env.par("failing writes", &jobs, |ctx, f| {
        let c = if f.many { &many } else { &few };
        let paths = ctx.env.corpus(c);
        let name = format!("wf{}.jsonl", ctx.worker);
        let mut r = R::new(f.w).j(1 + f.m % 2).mode(f.m, &name);
        r.force = f.old && r.out.is_some();
        let p = ctx.env.scratch.join(&name);
        let mut cmd = r.cmd(ctx.env, &paths);
        cmd.tracked = vec![name.clone()];
        cmd.faults = vec![Fault { class: f.class, track: if f.stdout { TRACK_STDOUT as u8 } else { 0 }, sticky: f.sticky, nth: f.nth, action: f.action }];
        let j = r.judge(c, &paths);
        let label = format!("{} {} {} fails with {} (from then on: {}) {}", if f.stdout { "stdout" } else { "file" }, if f.class == F_OPEN { "open" } else { "write" }, f.nth, f.action, f.sticky, r.label());
        ctx.env.distinct(&label);
        let p2 = p.clone();
        let old = f.old;
        ctx.eval_prep(
            &label,
            &cmd,
            &move || {
                let _ = std::fs::remove_file(&p2);
                if old {
                    std::fs::write(&p2, vec![b'x'; 5000]).unwrap();
                }
            },
            &|o| {
                if let Some(h) = o.hang() {
                    return Err(h);
                }
                let hard = f.action < 4096 && f.action != 4;
                if o.faults_hit > 0 && hard {
                    return if o.code == 0 { Err("a write failed but the exit status is 0".into()) } else { Ok(()) };
                }
                if o.code != 0 {
                    // short or interrupted writes need not be repeated, but nothing else may fail
                    return if o.faults_hit > 0 { Ok(()) } else { Err(format!("exit status {}: {}", o.code, tail(&o.err()))) };
                }
                if r.json {
                    j(&o.out()).map_err(|e| format!("standard output: {e}"))?;
                }
                if r.out.is_some() {
                    j(&std::fs::read_to_string(&p).map_err(|e| format!("no output file: {e}"))?).map_err(|e| format!("output file: {e}"))?;
                }
                Ok(())
            },
        );
    });
    // 4. outputs of many sizes
    let sizes: Vec<usize> = if env.quick() { vec![0, 1, 50, 1000, 20_000] } else { vec![0, 1, 2, 50, 100, 1000, 5000, 20_000, 100_000] };
    let mut jobs: Vec<(usize, W, bool)> = vec![];
    for s in sizes {
        for w in [W::Topk, W::Botk, W::Locate, W::Stats] {
            for json in [false, true] {
                jobs.push((s, w, json));
            }
        }
    }
    env.par("sizes", &jobs, |ctx, (s, w, json)| {
        let c: Corpus = vec![
            File { docs: (0..s.div_ceil(10)).map(|i| t(&(0..10).map(|k| format!("a{}", i * 10 + k)).collect::<Vec<_>>().join(" "))).collect() },
            file(&["b"]),
        ];
        let paths = ctx.env.corpus(&c);
        let name = format!("sz{}.jsonl", ctx.worker);
        let p = ctx.env.scratch.join(&name);
        let p2 = p.clone();
        let prep = move || {
            let _ = std::fs::remove_file(&p2);
        };
        let label = format!("{s} words {w:?} json={json}");
        if matches!(w, W::Topk | W::Botk) {
            let bot = *w == W::Botk;
            let k = s + 10;
            let mut f = super::ranked::Conf::new(1, k, 2);
            f.threshold = if bot { None } else { Some(0) };
            f.size = "64MiB".into();
            f.free = true;
            let mut cmd = f.cmd(ctx.env, bot, &paths);
            if !json {
                cmd.args.retain(|a| a != "--json");
            }
            cmd = cmd.arg("-o").arg(&name);
            let want = if bot { botk(&c, 1, k, u32::MAX as u64) } else { topk(&c, 1, k, 0) };
            ctx.eval_prep(&label, &cmd, &prep, &|o| {
                let so = ok_out(o)?;
                if *json {
                    judge_ranked(&so, &want)?;
                }
                judge_ranked(&std::fs::read_to_string(&p).map_err(|e| e.to_string())?, &want)
            });
        } else {
            let mut r = R::new(*w).j(2).out(&name);
            r.json = *json;
            r.free = true;
            let j = r.judge(&c, &paths);
            ctx.eval_prep(&label, &r.cmd(ctx.env, &paths), &prep, &|o| {
                let so = ok_out(o)?;
                if *json {
                    j(&so)?;
                }
                j(&std::fs::read_to_string(&p).map_err(|e| e.to_string())?)
            });
        }
    });
    // 5. schedules
    let cs: Vec<Corpus> = vec![vec![file(&["a b"]), file(&["b a"])], vec![file(&["a"]), file(&["a a", "b"]), File::default()]];
    let mut jobs: Vec<(W, usize)> = vec![];
    for w in WITH_OUT {
        for i in 0..cs.len() {
            jobs.push((w, i));
        }
    }
    let secs = if env.quick() { 1.5 } else { 60.0 };
    env.par("schedules", &jobs, |ctx, (w, i)| {
        let c = &cs[*i];
        let paths = ctx.env.corpus(c);
        let name = format!("sc{}.jsonl", ctx.worker);
        let p = ctx.env.scratch.join(&name);
        let mut r = R::new(*w).j(2).out(&name);
        r.force = true;
        let j = r.judge(c, &paths);
        let cmd = r.cmd(ctx.env, &paths);
        for b in bounds(ctx.env) {
            if ctx.env.over() {
                break;
            }
            let ok = ctx.explore_prep(
                &format!("{} {} [{b:?}]", r.label(), describe(c)),
                &cmd,
                b,
                secs / 2.0,
                &|| std::fs::write(&p, vec![b'y'; 3000]).unwrap(),
                &|o| {
                    let s = ok_out(o)?;
                    j(&s)?;
                    j(&std::fs::read_to_string(&p).map_err(|e| e.to_string())?)
                },
            );
            if !ok {
                break;
            }
        }
    });
}
