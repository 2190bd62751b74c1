//! C16 input discovery.
use super::cmds::*;
use super::outs::{lay, Node, Tree};
use super::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." if v.last().is_some_and(|l| *l != "..") => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}

fn matching(name: &str) -> bool {
    match name.find(".json") {
        Some(i) => name.ends_with(".gz") && name.len() >= i + 5 + 3,
        None => false,
    }
}

/// The files below `root` a directory argument stands for.
fn expected(t: &Tree, root: &str) -> BTreeSet<String> {
    let root = norm(root);
    t.iter()
        .filter(|(n, x)| {
            let below = root.is_empty() || n.starts_with(&format!("{root}/"));
            below && matches!(x, Node::File(_) | Node::Link(_)) && matching(n.rsplit('/').next().unwrap())
        })
        .map(|x| x.0.clone())
        .collect()
}

fn content(i: usize) -> Vec<u8> {
    gz(format!("{{\"text\":\"x u{i}\"}}\n").as_bytes())
}

/// Which files a search with locations has read, and how often.
fn read_by(out: &str) -> Result<(BTreeSet<String>, u64), String> {
    let l = lines(out)?;
    if l.len() != 1 {
        return Err(format!("{} results for one pattern", l.len()));
    }
    let m = l[0].get("matches").and_then(|v| v.as_object()).ok_or("no matches")?;
    let n = l[0].get("count").and_then(|v| v.as_u64()).ok_or("no count")?;
    Ok((m.keys().map(|k| norm(k)).collect(), n))
}

/// The other commands say how many documents, or which words, they saw.
fn judge_words(w: W, o: &Outcome, ids: &BTreeSet<usize>) -> Check {
    let s = ok_out(o)?;
    let l = lines(&s)?;
    let words: BTreeSet<String> = ids.iter().map(|i| format!("u{i}")).collect();
    match w {
        W::Topk | W::Botk => {
            let mut got = BTreeSet::new();
            for e in &l {
                let tk = e["tokens"][0].as_str().unwrap_or("?").to_string();
                let n = e["count"].as_u64().unwrap_or(0);
                let want = if tk == "x" { ids.len() as u64 } else { 1 };
                if n != want {
                    return Err(format!("{tk} is counted {n} times instead of {want}"));
                }
                if tk != "x" {
                    got.insert(tk);
                }
            }
            if got != words {
                return Err(format!("words found: {got:?}, expected {words:?}"));
            }
        }
        W::Stats => {
            let n = l.first().and_then(|v| v["total_documents"].as_u64());
            if n != Some(ids.len() as u64) {
                return Err(format!("{n:?} documents, expected {}", ids.len()));
            }
        }
        W::Unique => {
            let n = l.first().and_then(|v| v["unique_count"].as_u64());
            let want = if ids.is_empty() { 0 } else { ids.len() as u64 + 1 };
            if n != Some(want) {
                return Err(format!("{n:?} distinct tokens, expected {want}"));
            }
        }
        W::Count => {
            let n = l.first().and_then(|v| v["count"].as_u64());
            if n != Some(ids.len() as u64) {
                return Err(format!("\"x\" counted {n:?} times, expected {}", ids.len()));
            }
        }
        W::Search | W::Locate => {
            let n = l.first().and_then(|v| v["count"].as_u64());
            if n != Some(ids.len() as u64) {
                return Err(format!("{n:?} matches, expected {}", ids.len()));
            }
        }
    }
    Ok(())
}

fn args(w: W) -> Vec<&'static str> {
    match w {
        W::Topk => vec!["topk", "-n", "1", "-k", "50", "--size", "64KiB", "-h", "2", "--seed", "1", "--threshold", "0", "--json"],
        W::Botk => vec!["botk", "-n", "1", "-k", "50", "--size", "64KiB", "-h", "2", "--seed", "1", "--json"],
        W::Count => vec!["count", "-s", "x", "--json"],
        W::Search => vec!["search", "-p", "^x", "--json"],
        W::Locate => vec!["search", "-p", "^x", "--with-locations", "--json"],
        W::Stats => vec!["stats", "--json"],
        W::Unique => vec!["unique", "-n", "1", "--size", "64KiB", "-h", "2", "--seed", "1", "--json"],
    }
}

fn pool() -> Vec<(&'static str, bool)> {
    // (path, is it a directory)
    vec![
        ("a.json.gz", false),
        ("b.jsonl.gz", false),
        (".json.gz", false),
        (".h.json.gz", false),
        ("x.json.tar.gz", false),
        ("x.json.gz.gz", false),
        ("[1].json.gz", false),
        ("sp ace*.json.gz", false),
        ("ü.jsonß.gz", false),
        ("l\nf.json.gz", false),
        ("a.json..gz", false),
        ("s/a.json.gz", false),
        ("s/t/u/v/c.json.gz", false),
        (".hd/a.json.gz", false),
        ("[x]/{y}/a.json.gz", false),
        ("d.json.gz/in.json.gz", false),
        ("s/d.json.gz", true),
        ("empty", true),
        ("a.json", false),
        ("a.gz", false),
        ("json.gz", false),
        ("a.jsongz", false),
        ("a.json.gz.bak", false),
        ("A.JSON.GZ", false),
        ("a.gz.json", false),
        (".json/a.gz", false),
        ("s/readme.txt", false),
        ("n.json.gz/readme.txt", false),
        ("a.jso.gz", false),
        ("a.json.gzip", false),
    ]
}

fn build(root: &str, picks: &[(&str, bool)]) -> (Tree, Vec<String>) {
    let mut t = Tree::new();
    let mut names = vec![];
    if !root.is_empty() {
        t.insert(norm(root), Node::Dir);
    }
    for (i, (p, dir)) in picks.iter().enumerate() {
        let full = norm(&format!("{root}/{p}"));
        if *dir {
            t.insert(full, Node::Dir);
        } else {
            t.insert(full.clone(), Node::File(content(i)));
            names.push(full);
        }
    }
    (t, names)
}

pub fn c16(env: &Env) {
    let pool = pool();
    // 1. every tree of up to three entries
    let mut trees: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..pool.len() {
        trees.push(vec![a]);
        for b in a + 1..pool.len() {
            trees.push(vec![a, b]);
            for c in b + 1..pool.len() {
                trees.push(vec![a, b, c]);
            }
        }
    }
    trees.push((0..pool.len()).collect());
    let others = [W::Topk, W::Botk, W::Count, W::Search, W::Stats, W::Unique];
    env.par("trees", &trees, |ctx, tr| {
        let picks: Vec<(&str, bool)> = tr.iter().map(|i| pool[*i]).collect();
        let (t, _) = build("in", &picks);
        let dir = ctx.env.scratch.join(format!("own{}", ctx.worker));
        lay(&dir, &t);
        let want = expected(&t, "in");
        let key: usize = tr.iter().sum::<usize>() + tr.len();
        let given = ["in", "in/", "./in", "in/../in", "ABS"][key % 5];
        let given = given.replace("ABS", dir.join("in").to_str().unwrap());
        let label = format!("tree {:?} given as {given}", picks.iter().map(|p| p.0).collect::<Vec<_>>());
        ctx.env.distinct(&format!("{tr:?}"));
        let mut cmd = ctx.env.cmd(&args(W::Locate), &[]).arg("-j").arg(1 + key % 3).arg("--").arg(&given);
        cmd.cwd = dir.clone();
        let d2 = dir.clone();
        ctx.eval(&label, &cmd, &|o| {
            if want.is_empty() {
                return must_fail(o);
            }
            let (got, n) = read_by(&ok_out(o)?)?;
            let base = norm(d2.to_str().unwrap());
            let got: BTreeSet<String> = got.into_iter().map(|g| g.strip_prefix(&format!("{base}/")).map(|s| s.to_string()).unwrap_or(g)).collect();
            if got != want {
                return Err(format!("files read: {got:?}, expected: {want:?}"));
            }
            if n != want.len() as u64 {
                return Err(format!("{} files were read {n} times", want.len()));
            }
            Ok(())
        });
        let w = others[(key / 5 + tr.len()) % others.len()];
        let ids: BTreeSet<usize> = picks
            .iter()
            .enumerate()
            .filter(|(_, p)| want.contains(&norm(&format!("in/{}", p.0))))
            .map(|x| x.0)
            .collect();
        let mut cmd = ctx.env.cmd(&args(w), &[]).arg("-j").arg(1 + key % 3).arg("--").arg(&given);
        cmd.cwd = dir.clone();
        cmd.free_running = w == W::Unique;
        ctx.eval(&format!("{w:?} {label}"), &cmd, &|o| if want.is_empty() { must_fail(o) } else { judge_words(w, o, &ids) });
    });
    // 2. directories whose own names are special, next to what a pattern of that name would match
    let roots = [
        "[a]", "[!a]", "*", "**", "?", "a?", "a*", "a[b", "a]b", "[]", "[[]", "{a,b}", "a\\b", "\\*", "-x", "a b", "ü", "[a-c]", "x[*]y", "a.json.gz", ".hid", "...", "#", "$HOME", "~", "%41", "a\nb", "[", "]", "!", "'q'", "\"q\"",
    ];
    let mut jobs: Vec<(String, W)> = vec![];
    for r in roots {
        for deep in ["", "sub/", "[s]/*/"] {
            for w in ALL {
                jobs.push((format!("{deep}{r}"), w));
            }
        }
    }
    env.par("special directory names", &jobs, |ctx, (root, w)| {
        let (mut t, _) = build(root, &[("a.json.gz", false), ("s/b.jsonl.gz", false), ("no.txt", false)]);
        let dir = ctx.env.scratch.join(format!("own{}", ctx.worker));
        for d in ["a", "b", "ab", "c", "sub", "sub/a", "sub/b", "sub/ab", "s", "s/q", "s/q/a", "[s]/q", "x*y", "xzy"] {
            t.insert(format!("{d}/decoy.json.gz"), Node::File(content(7)));
        }
        lay(&dir, &t);
        let want = expected(&t, root);
        for given in [root.clone(), format!("{root}/"), format!("./{root}"), dir.join(root).to_str().unwrap().to_string()] {
            let mut cmd = ctx.env.cmd(&args(*w), &[]).arg("-j").arg(2).arg("--").arg(&given);
            cmd.cwd = dir.clone();
            cmd.free_running = *w == W::Unique;
            let base = format!("{}/", norm(dir.to_str().unwrap()));
            ctx.env.distinct(&format!("{root}"));
            ctx.eval(&format!("{w:?} directory {given:?}"), &cmd, &|o| {
                if *w == W::Locate {
                    let (got, n) = read_by(&ok_out(o)?)?;
                    let got: BTreeSet<String> = got.into_iter().map(|g| g.strip_prefix(&base).map(|s| s.to_string()).unwrap_or(g)).collect();
                    if got != want || n != want.len() as u64 {
                        return Err(format!("files read: {got:?} ({n} documents), expected: {want:?}"));
                    }
                    Ok(())
                } else {
                    judge_words(*w, o, &BTreeSet::from([0, 1]))
                }
            });
        }
    });
    // 3. files given directly, whatever their names; several arguments; file limits
    let odd = ["plain", "a.txt", "a.json", "-dash.gz", "sp ace", "ü", "[x]", "*", "a.json.gz", ".hidden", "deep/er/file", "d.json.gz", "\"q\"", "a\nb", "x?.gz", "é.json.gz"];
    let dirs: [(&str, &[(&str, bool)]); 5] = [
        ("d1", &[("b.json.gz", false), ("a.json.gz", false), ("z/c.jsonl.gz", false)]),
        ("d2", &[("only.json.gz", false), ("no.txt", false)]),
        ("d3[x]", &[("k.json.gz", false), ("j.json.gz", false)]),
        // no input in there
        ("d4", &[("b.txt", false), ("s/json.gz", false)]),
        ("d5", &[]),
    ];
    // an argument is a file index or 100 + a directory index
    let mut lists: Vec<Vec<usize>> = vec![];
    for i in 0..odd.len() {
        lists.push(vec![i]);
        lists.push(vec![i, 100]);
        lists.push(vec![101, i, 102]);
        lists.push(vec![i, (i + 1) % odd.len(), (i + 5) % odd.len()]);
    }
    for p in [[100, 101, 102], [102, 101, 100], [101, 102, 100]] {
        lists.push(p.to_vec());
    }
    lists.push((0..odd.len()).collect());
    for e in [103, 104] {
        for p in [vec![e], vec![0, e], vec![e, 0], vec![100, e], vec![e, 100], vec![101, e, 102], vec![e, 103, 100], vec![100, 0, e]] {
            lists.push(p);
        }
    }
    let mut jobs: Vec<(Vec<usize>, Option<usize>)> = vec![];
    for l in &lists {
        for fl in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7), Some(20)] {
            jobs.push((l.clone(), fl));
        }
    }
    env.par("arguments and file limits", &jobs, |ctx, (list, fl)| {
        let mut t = Tree::new();
        let mut id = 0;
        let mut file_ids = vec![];
        for f in odd {
            t.insert(f.into(), Node::File(content(id)));
            file_ids.push(id);
            id += 1;
        }
        let mut dir_ids: Vec<Vec<usize>> = vec![];
        for (d, picks) in dirs {
            let mut v = vec![];
            t.insert(d.into(), Node::Dir);
            for (p, _) in picks {
                let n = format!("{d}/{p}");
                t.insert(n, Node::File(content(id)));
                if matching(p.rsplit('/').next().unwrap()) {
                    v.push(id);
                }
                id += 1;
            }
            dir_ids.push(v);
        }
        let dir = ctx.env.scratch.join(format!("own{}", ctx.worker));
        lay(&dir, &t);
        let argv: Vec<String> = list.iter().map(|a| if *a >= 100 { dirs[a - 100].0.to_string() } else { odd[*a].to_string() }).collect();
        let empty = list.iter().any(|a| *a >= 100 && dir_ids[a - 100].is_empty());
        if empty && fl.is_some_and(|f| f < 20) {
            return;
        }
        let total: usize = list.iter().map(|a| if *a >= 100 { dir_ids[a - 100].len() } else { 1 }).sum();
        for (wi, w) in ALL.iter().enumerate() {
            if ctx.env.quick() && (wi + list.len() + fl.unwrap_or(9) + list[0]) % 2 == 0 {
                continue;
            }
            let mut cmd = ctx.env.cmd(&args(*w), &[]);
            if *w == W::Count {
                // which words were seen
                for i in 0..id {
                    cmd = cmd.arg("-s").arg(format!("u{i}"));
                }
            } else if matches!(w, W::Search | W::Locate) {
                for i in 0..id {
                    cmd = cmd.arg("-p").arg(format!("u{i}$"));
                }
            }
            cmd = cmd.arg("-j").arg(1 + (list.len() + wi) % 3);
            if let Some(f) = fl {
                cmd = cmd.arg("--file-limit").arg(f);
            }
            cmd.args.push("--".into());
            cmd.args.extend(argv.iter().cloned());
            cmd.cwd = dir.clone();
            cmd.free_running = *w == W::Unique;
            let label = format!("{w:?} arguments {argv:?} file limit {fl:?}");
            ctx.env.distinct(&label);
            ctx.eval(&label, &cmd, &|o| {
                if empty {
                    return must_fail(o);
                }
                if *fl == Some(0) {
                    // some commands refuse it, none may read anything
                    if o.code != 0 {
                        return must_fail(o);
                    }
                    if matches!(w, W::Count | W::Search | W::Locate) {
                        return Err("a file limit of 0 was accepted".into());
                    }
                    return judge_words(*w, o, &BTreeSet::new());
                }
                let n = fl.unwrap_or(total).min(total);
                let s = ok_out(o)?;
                // arguments are used up in order, directories in an order of their own
                let mut left = n;
                let mut sure = BTreeSet::new();
                let mut part: Option<(BTreeSet<usize>, usize)> = None;
                for a in list {
                    if left == 0 {
                        break;
                    }
                    let v: Vec<usize> = if *a >= 100 { dir_ids[a - 100].clone() } else { vec![file_ids[*a]] };
                    if v.len() <= left {
                        left -= v.len();
                        sure.extend(v);
                    } else {
                        part = Some((v.into_iter().collect(), left));
                        left = 0;
                    }
                }
                let seen: Option<BTreeSet<usize>> = match w {
                    W::Topk | W::Botk => Some(
                        lines(&s)?
                            .iter()
                            .filter_map(|e| e["tokens"][0].as_str().and_then(|t| t.strip_prefix('u').and_then(|x| x.parse().ok())))
                            .collect(),
                    ),
                    W::Count => Some(
                        lines(&s)?
                            .iter()
                            .filter(|e| e["count"].as_u64() == Some(1))
                            .filter_map(|e| e["string"].as_str().and_then(|t| t.strip_prefix('u').and_then(|x| x.parse().ok())))
                            .collect(),
                    ),
                    W::Search | W::Locate => Some(
                        lines(&s)?
                            .iter()
                            .filter(|e| e["count"].as_u64() == Some(1))
                            .filter_map(|e| e["pattern"].as_str().and_then(|t| t.strip_prefix('u').and_then(|x| x.trim_end_matches('$').parse().ok())))
                            .collect(),
                    ),
                    W::Stats => {
                        let d = lines(&s)?[0]["total_documents"].as_u64();
                        if d != Some(n as u64) {
                            return Err(format!("{d:?} files processed instead of {n}"));
                        }
                        None
                    }
                    W::Unique => {
                        let d = lines(&s)?[0]["unique_count"].as_u64();
                        if d != Some(n as u64 + 1) {
                            return Err(format!("{d:?} distinct tokens instead of {}", n + 1));
                        }
                        None
                    }
                };
                if let Some(seen) = seen {
                    let ok = seen.len() == n
                        && sure.is_subset(&seen)
                        && match &part {
                            None => seen == sure,
                            Some((p, k)) => {
                                let rest: BTreeSet<usize> = seen.difference(&sure).copied().collect();
                                rest.is_subset(p) && rest.len() == *k
                            }
                        };
                    if !ok {
                        return Err(format!("files processed: {seen:?}, but the first {n} are {sure:?} and part of {part:?}"));
                    }
                }
                Ok(())
            });
        }
    });
    // arguments that name the same file again
    let names = ["f.json.gz", "./f.json.gz", "g", "d", "d/", "d/h.json.gz", "ABS/f.json.gz"];
    let stands: [&[usize]; 7] = [&[0], &[0], &[1], &[2, 3], &[2, 3], &[2], &[0]];
    let mut jobs: Vec<(Vec<usize>, W)> = vec![];
    for a in 0..names.len() {
        for b in 0..names.len() {
            for w in ALL {
                if a == b || stands[a].iter().any(|x| stands[b].contains(x)) {
                    jobs.push((vec![a, b], w));
                }
                for c in 0..names.len() {
                    if a == b || b == c || a == c || (a + b + c) % if env.quick() { 4 } else { 1 } == 0 {
                        jobs.push((vec![a, b, c], w));
                    }
                }
            }
        }
    }
    env.par("arguments naming the same file again", &jobs, |ctx, (list, w)| {
        let dir = ctx.env.scratch.join(format!("own{}", ctx.worker));
        let mut t = Tree::new();
        for (i, f) in ["f.json.gz", "g", "d/h.json.gz", "d/e/i.jsonl.gz"].iter().enumerate() {
            t.insert((*f).into(), Node::File(content(i)));
        }
        lay(&dir, &t);
        let mut times = [0u64; 4];
        for a in list {
            for i in stands[*a] {
                times[*i] += 1;
            }
        }
        let mut cmd = ctx.env.cmd(&args(*w), &[]);
        let flag = match w {
            W::Count => "-s",
            W::Search | W::Locate => "-p",
            _ => "",
        };
        if !flag.is_empty() {
            for i in 0..4 {
                cmd = cmd.arg(flag).arg(format!("u{i}"));
            }
        }
        let argv: Vec<String> = list.iter().map(|a| names[*a].replace("ABS", dir.to_str().unwrap())).collect();
        cmd = cmd.arg("-j").arg(1 + list.iter().sum::<usize>() % 2).arg("--");
        cmd.args.extend(argv.iter().cloned());
        cmd.cwd = dir.clone();
        cmd.free_running = *w == W::Unique;
        let label = format!("{w:?} arguments {argv:?}");
        ctx.env.distinct(&label);
        ctx.eval(&label, &cmd, &|o| {
            let l = lines(&ok_out(o)?)?;
            let total: u64 = times.iter().sum();
            let of = |key: &str, strip: &str| -> BTreeMap<String, u64> {
                l.iter()
                    .map(|e| {
                        let k = if key == "tokens" { e["tokens"][0].as_str() } else { e[key].as_str() };
                        (k.unwrap_or("?").trim_end_matches(strip).to_string(), e["count"].as_u64().unwrap_or(u64::MAX))
                    })
                    .collect()
            };
            let mut want: BTreeMap<String, u64> = (0..4).map(|i| (format!("u{i}"), times[i])).collect();
            let got = match w {
                W::Stats => {
                    let n = l.first().and_then(|v| v["total_documents"].as_u64());
                    return if n == Some(total) { Ok(()) } else { Err(format!("{n:?} documents, expected {total}")) };
                }
                W::Unique => {
                    let n = l.first().and_then(|v| v["unique_count"].as_u64());
                    let d = 1 + times.iter().filter(|x| **x > 0).count() as u64;
                    return if n == Some(d) { Ok(()) } else { Err(format!("{n:?} distinct tokens, expected {d}")) };
                }
                W::Topk | W::Botk => {
                    want.retain(|_, n| *n > 0);
                    want.insert("x".into(), total);
                    of("tokens", "")
                }
                W::Count => {
                    want.insert("x".into(), total);
                    of("string", "")
                }
                _ => {
                    want.insert("^x".into(), total);
                    of("pattern", "")
                }
            };
            if got != want {
                return Err(format!("reported {got:?}, expected {want:?}"));
            }
            Ok(())
        });
    });
    // 4. links and directories that cannot be read
    let mut jobs: Vec<(W, usize)> = vec![];
    for w in ALL {
        for k in 0..8 {
            jobs.push((w, k));
        }
    }
    env.par("links, unreadable directories", &jobs, |ctx, (w, k)| {
        let (mut t, _) = build("in", &[("a.json.gz", false), ("s/b.json.gz", false), ("s/t/c.json.gz", false)]);
        let dir = ctx.env.scratch.join(format!("own{}", ctx.worker));
        let mut ids = BTreeSet::from([0, 1, 2]);
        let mut fault = None;
        let mut given = "in";
        match k {
            0 => {
                // a link to a file of another name is a file of its own
                t.insert("far".into(), Node::File(content(3)));
                t.insert("in/l.json.gz".into(), Node::Link("../far".into()));
                ids.insert(3);
            }
            1 => {
                // given through a link
                t.insert("ln".into(), Node::Link("in".into()));
                given = "ln";
            }
            2 => {
                t.insert("in/dangling.json.gz".into(), Node::Link("nowhere".into()));
                ids.clear();
            }
            3 => fault = Some(("in/s", F_OPEN, 13, 0)),
            4 => fault = Some(("in/s", F_READ, 5, 0)),
            5 => fault = Some(("in/s/t", F_OPEN, 24, 0)),
            6 => fault = Some(("in", F_OPEN, 13, 0)),
            _ => fault = Some(("in/s", F_READ, 5, 2)),
        }
        lay(&dir, &t);
        let mut cmd = ctx.env.cmd(&args(*w), &[]).arg("-j").arg(2).arg("--").arg(given);
        cmd.cwd = dir.clone();
        cmd.free_running = *w == W::Unique;
        if let Some((p, class, errno, nth)) = fault {
            cmd.tracked = vec![p.into()];
            cmd.faults = vec![Fault { class, track: 0, sticky: 1, nth, action: errno }];
        }
        ctx.env.distinct(&format!("{w:?} {k}"));
        ctx.eval(&format!("{w:?} special case {k} {fault:?}"), &cmd, &|o| {
            if fault.is_some() && o.faults_hit > 0 || ids.is_empty() {
                return must_fail(o);
            }
            judge_words(*w, o, &ids)
        });
    });
}
