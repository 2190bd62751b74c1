//! Drives the public library API of the subject (not its commands).
//! Everything printed is judged by the explorer, except for the enumerations, which carry their own
//! reference and print the first disagreement.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering};
use std::sync::Arc;
use std::thread;
use unicode_segmentation::UnicodeSegmentation;
use wimbd::io::GzBufReader;
use wimbd::ngrams::{ngrams, Ngram, NgramCounter, TopKNgrams};
use wimbd::tokens::tokenize;

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

// ---------------------------------------------------------------- line reader

/// lines MODE FILE...: MODE drop (let go of each line), hold (keep all), alt (keep every other one),
/// late (let go of a line only after the next one was read)
fn lines(a: &[String]) {
    let mode = a[0].as_str();
    for f in &a[1..] {
        let mut got: Vec<String> = vec![];
        let mut held: Vec<(Rc<String>, String)> = vec![];
        let mut err: Option<String> = None;
        match GzBufReader::open(f) {
            Err(e) => err = Some(format!("open: {e}")),
            Ok(r) => {
                let mut prev: Option<(Rc<String>, String)> = None;
                for (i, l) in r.enumerate() {
                    match l {
                        Ok(s) => {
                            let copy = s.to_string();
                            got.push(copy.clone());
                            if mode == "hold" || (mode == "alt" && i % 2 == 0) {
                                held.push((s, copy));
                            } else if mode == "late" {
                                if let Some((s, c)) = prev.take() {
                                    if *s != c {
                                        held.push((s, c));
                                    }
                                }
                                prev = Some((s, copy));
                            }
                        }
                        Err(e) => {
                            err = Some(format!("{e}"));
                            break;
                        }
                    }
                }
            }
        }
        let changed = held.iter().any(|(s, c)| **s != *c);
        println!(
            "{}",
            serde_json::json!({"lines": got.iter().map(|l| hex(l.as_bytes())).collect::<Vec<_>>(), "err": err, "changed": changed})
        );
    }
}

// ---------------------------------------------------------------- tokenizer

pub fn alphabet() -> Vec<char> {
    "a B1_'.,:\"-$\n\r\t\u{b}\u{a0}\u{85}\u{3000}\u{2028}\u{1680}\u{200d}\u{301}👩🇩א한漢カก\u{ad}\u{200b}\u{feff}\u{0}\u{fe0f}ß\u{200e}".chars().collect()
}

fn check_tokens(s: &str) -> Result<(), String> {
    let got: Vec<&str> = tokenize(s).collect();
    let again: Vec<&str> = tokenize(s).collect();
    if got != again {
        return Err(format!("{s:?} is tokenized as {got:?} and then as {again:?}"));
    }
    let want: Vec<&str> = s.split_word_bounds().filter(|w| !w.trim().is_empty()).collect();
    if got != want {
        return Err(format!("{s:?} is tokenized as {got:?}, expected {want:?}"));
    }
    // independent of the boundaries: pieces of the text in order, only white space between them
    let base = s.as_ptr() as usize;
    let mut at = 0;
    for t in &got {
        let i = t.as_ptr() as usize - base;
        if i < at || i + t.len() > s.len() || !s[at..i].chars().all(char::is_whitespace) || t.chars().all(char::is_whitespace) {
            return Err(format!("{s:?}: token {t:?} at {i} (previous end {at})"));
        }
        at = i + t.len();
    }
    if !s[at..].chars().all(char::is_whitespace) {
        return Err(format!("{s:?}: {:?} after the last token is lost", &s[at..]));
    }
    Ok(())
}

/// tokens MAXLEN FIRST: every string of up to MAXLEN characters that starts with the FIRST-th one
fn tokens_enum(a: &[String]) {
    let max: usize = a[0].parse().unwrap();
    let first: usize = a[1].parse().unwrap();
    let al = alphabet();
    let mut n = 0u64;
    let mut idx: Vec<usize> = vec![first];
    let mut s = String::new();
    loop {
        s.clear();
        for i in &idx {
            s.push(al[*i]);
        }
        n += 1;
        if let Err(e) = check_tokens(&s) {
            println!("{}", serde_json::json!({"n": n, "bad": e}));
            return;
        }
        // next in length-first depth order
        if idx.len() < max {
            idx.push(0);
            continue;
        }
        loop {
            if idx.len() == 1 {
                println!("{}", serde_json::json!({"n": n, "bad": null}));
                return;
            }
            let l = idx.last_mut().unwrap();
            *l += 1;
            if *l < al.len() {
                break;
            }
            idx.pop();
        }
    }
}

/// chars FROM TO: every character in that range, alone and between letters, digits and spaces
fn chars_enum(a: &[String]) {
    let (from, to): (u32, u32) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let mut n = 0u64;
    for c in (from..to).filter_map(char::from_u32) {
        for (p, q) in [("", ""), ("a", "b"), ("a ", " b"), ("1", "2"), (" ", ""), ("", "\n"), ("\u{3000}", "\u{a0}")] {
            n += 1;
            if let Err(e) = check_tokens(&format!("{p}{c}{q}")).and_then(|_| check_tokens(&format!("{p}{c}{c}{q}"))) {
                println!("{}", serde_json::json!({"n": n, "bad": e}));
                return;
            }
        }
    }
    println!("{}", serde_json::json!({"n": n, "bad": null}));
}

// ---------------------------------------------------------------- n-grams

fn windows<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut i = 0;
    while i + n <= v.len() {
        out.push(v[i..i + n].to_vec());
        i += 1;
    }
    out
}

fn check_windows(seq: &[u8], n: usize) -> Result<(), String> {
    let want = windows(seq, n);
    let v: Vec<u8> = seq.to_vec();
    let got: Vec<Vec<u8>> = v.iter().copied().ngrams(n).collect();
    if got != want {
        return Err(format!("{n}-grams of {seq:?} are {got:?}, expected {want:?}"));
    }
    // step by step, and past the end (the source is exhausted for good)
    let mut it = v.clone().into_iter().ngrams(n);
    for w in &want {
        if it.next().as_ref() != Some(w) {
            return Err(format!("{n}-grams of {seq:?} step by step"));
        }
    }
    for _ in 0..2 {
        if let Some(x) = it.next() {
            return Err(format!("{n}-grams of {seq:?}: {x:?} after the end"));
        }
    }
    // through the text helper
    let text: String = seq.iter().map(|x| format!("{} ", (b'a' + x) as char)).collect();
    let w: Vec<Vec<String>> = want.iter().map(|g| g.iter().map(|x| ((b'a' + x) as char).to_string()).collect()).collect();
    let g: Vec<Vec<String>> = ngrams(&text, n, &None).map_err(|e| e.to_string())?.collect();
    if g != w {
        return Err(format!("ngrams({text:?}, {n}) gives {g:?}, expected {w:?}"));
    }
    let strs: Vec<String> = seq.iter().map(|x| x.to_string()).collect();
    let got: Vec<Vec<&str>> = strs.iter().map(|s| s.as_str()).ngrams(n).collect();
    if got != windows(&strs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), n) {
        return Err(format!("{n}-grams of strings {strs:?}"));
    }
    Ok(())
}

/// windows LETTERS MAXLEN MAXN: every sequence, every n
fn windows_enum(a: &[String]) {
    let (letters, max, maxn): (u8, usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut count = 0u64;
    let mut all: VecDeque<Vec<u8>> = VecDeque::from([vec![]]);
    while let Some(s) = all.pop_front() {
        for n in 1..=maxn {
            count += 1;
            if let Err(e) = check_windows(&s, n) {
                println!("{}", serde_json::json!({"n": count, "bad": e}));
                return;
            }
        }
        if s.len() < max {
            for l in 0..letters {
                let mut t = s.clone();
                t.push(l);
                all.push_back(t);
            }
        }
    }
    println!("{}", serde_json::json!({"n": count, "bad": null}));
}

/// long MAX: sequences 0..m for every m <= MAX with window sizes around m and powers of two
fn windows_long(a: &[String]) {
    let max: usize = a[0].parse().unwrap();
    let mut count = 0u64;
    for m in 0..=max {
        let s: Vec<u8> = (0..m).map(|i| (i % 23) as u8).collect();
        let mut ns: BTreeSet<usize> = [1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65].into();
        for d in 0..3 {
            ns.insert((m + d).max(1));
            ns.insert(m.saturating_sub(d).max(1));
        }
        for n in ns {
            count += 1;
            if let Err(e) = check_windows(&s, n) {
                println!("{}", serde_json::json!({"n": count, "bad": e}));
                return;
            }
        }
    }
    println!("{}", serde_json::json!({"n": count, "bad": null}));
}

/// split N FILE: the n-grams of each line of a text file, as one multiset over all lines
fn split(a: &[String]) {
    let n: usize = a[0].parse().unwrap();
    let mut m: BTreeMap<Vec<String>, u64> = BTreeMap::new();
    for l in GzBufReader::open(&a[1]).unwrap() {
        let v: serde_json::Value = serde_json::from_str(&l.unwrap()).unwrap();
        if let Some(t) = v["text"].as_str() {
            for g in ngrams(t, n, &None).unwrap() {
                *m.entry(g).or_insert(0) += 1;
            }
        }
    }
    println!("{}", serde_json::json!(m.into_iter().collect::<Vec<_>>()));
}

// ---------------------------------------------------------------- top-k tracker

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u8, u32),
    Drain,
}

/// The k largest by (highest count, n-gram).
fn best(m: &BTreeMap<u8, u32>, k: usize) -> Vec<(u8, u32)> {
    let mut v: Vec<(u8, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect();
    v.sort_by(|a, b| (b.1, b.0).cmp(&(a.1, a.0)));
    v.truncate(k);
    v
}

fn name(i: u8) -> Vec<String> {
    // lexicographic order of the n-grams is the order of the numbers
    match i {
        0 => vec!["a".into()],
        1 => vec!["a".into(), "".into()],
        2 => vec!["a".into(), "b".into()],
        3 => vec!["ab".into()],
        n => vec!["b".into(), n.to_string()],
    }
}

fn check_topk(k: usize, ops: &[Op], names: &[Vec<String>]) -> Result<(), String> {
    let mut t: TopKNgrams<String, AtomicU32> = TopKNgrams::new(k);
    let min = t.min_count();
    let mut m: BTreeMap<u8, u32> = BTreeMap::new();
    let mut drain = |t: &mut TopKNgrams<String, AtomicU32>, m: &mut BTreeMap<u8, u32>| -> Result<(), String> {
        let got: Vec<(Vec<String>, u32)> = t.drain().into_iter().map(|(g, c)| ((*g).clone(), c)).collect();
        let want: Vec<(Vec<String>, u32)> = best(m, k).into_iter().map(|(i, c)| (names[i as usize].clone(), c)).collect();
        if got != want {
            return Err(format!("k={k} after {ops:?} the tracker held {got:?}, expected {want:?}"));
        }
        m.clear();
        let v = min.load(Ordering::Relaxed);
        if v != 1 {
            return Err(format!("k={k} {ops:?}: minimum count after a drain is {v}"));
        }
        Ok(())
    };
    for o in ops {
        match *o {
            Op::Insert(i, c) => {
                t.insert(names[i as usize].clone(), c);
                if c >= 1 {
                    let e = m.entry(i).or_insert(0);
                    *e = (*e).max(c);
                }
                let b = best(&m, k);
                let low = if b.len() >= k { b.last().map(|x| x.1).unwrap_or(1) } else { 1 };
                let v = min.load(Ordering::Relaxed);
                if v > low {
                    return Err(format!("k={k} {ops:?}: the minimum count is published as {v} but {low} still counts"));
                }
            }
            Op::Drain => drain(&mut t, &mut m)?,
        }
    }
    drain(&mut t, &mut m)
}

/// topk K NGRAMS MAXCOUNT DEPTH FIRST SECOND: every operation sequence of up to DEPTH operations with this beginning
fn topk_enum(a: &[String]) {
    let p: Vec<usize> = a.iter().map(|x| x.parse().unwrap()).collect();
    let (k, ng, maxc, depth) = (p[0], p[1] as u8, p[2] as u32, p[3]);
    let names: Vec<Vec<String>> = (0..ng).map(name).collect();
    let mut al: Vec<Op> = vec![Op::Drain];
    for i in 0..ng {
        for c in 0..=maxc {
            al.push(Op::Insert(i, c));
        }
    }
    if p[4] >= al.len() || (p.len() > 5 && p[5] >= al.len()) {
        println!("{}", serde_json::json!({"n": 0, "bad": null}));
        return;
    }
    let mut idx: Vec<usize> = p[4..].to_vec();
    let fixed = idx.len();
    let mut ops: Vec<Op> = vec![];
    let mut n = 0u64;
    loop {
        ops.clear();
        ops.extend(idx.iter().map(|i| al[*i]));
        n += 1;
        if let Err(e) = check_topk(k, &ops, &names) {
            println!("{}", serde_json::json!({"n": n, "bad": e}));
            return;
        }
        if idx.len() < depth {
            idx.push(0);
            continue;
        }
        loop {
            if idx.len() == fixed {
                println!("{}", serde_json::json!({"n": n, "bad": null}));
                return;
            }
            let l = idx.last_mut().unwrap();
            *l += 1;
            if *l < al.len() {
                break;
            }
            idx.pop();
        }
    }
}

/// topkbig K N PATTERN: long sequences
fn topk_big(a: &[String]) {
    let p: Vec<usize> = a.iter().map(|x| x.parse().unwrap()).collect();
    let (k, n, pat) = (p[0], p[1], p[2]);
    let mut t: TopKNgrams<String, AtomicU64> = TopKNgrams::new(k);
    let min = t.min_count();
    let mut m: BTreeMap<Vec<String>, u64> = BTreeMap::new();
    let mut x = pat as u64 * 7919 + 1;
    for i in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (g, c) = match pat % 4 {
            0 => (i as u64, i as u64 + 1),                         // rising
            1 => (i as u64, (n - i) as u64),                       // falling
            2 => (i as u64 % (k as u64 + 2), i as u64 / 3 + 1),    // few n-grams, growing counts
            _ => ((x >> 33) % (n as u64 / 2 + 1), (x >> 50) % 20), // mixed
        };
        let g = vec![format!("g{g}"), "z".to_string()];
        t.insert(g.clone(), c);
        if c >= 1 {
            let e = m.entry(g).or_insert(0);
            *e = (*e).max(c);
        }
    }
    let mut want: Vec<(Vec<String>, u64)> = m.into_iter().collect();
    want.sort_by(|a, b| (b.1, &b.0).cmp(&(a.1, &a.0)));
    want.truncate(k);
    if want.len() == k && min.load(Ordering::Relaxed) > want.last().unwrap().1 {
        println!("{}", serde_json::json!({"n": n, "bad": "published minimum count is too high"}));
        return;
    }
    let got: Vec<(Vec<String>, u64)> = t.drain().into_iter().map(|(g, c)| ((*g).clone(), c)).collect();
    let bad = if got != want { Some(format!("k={k} n={n} pattern {pat}: {} entries, first difference at {:?}", got.len(), got.iter().zip(&want).position(|x| x.0 != x.1))) } else { None };
    println!("{}", serde_json::json!({"n": n, "bad": bad}));
}

// ---------------------------------------------------------------- counter

/// counter TYPE SIZE HASHES SEED INIT PROBES THREAD...: THREAD is a list of +g:by and -g:by
fn counter(a: &[String]) {
    macro_rules! go {
        ($at:ty, $t:ty) => {{
            let (size, hashes) = (a[1].parse().unwrap(), a[2].parse().unwrap());
            let seed: u64 = a[3].parse().unwrap();
            let init: $t = a[4].parse().unwrap();
            let c: Arc<NgramCounter<$at>> = Arc::new(NgramCounter::new(size, hashes, Some(seed), init).unwrap());
            let run = |c: &NgramCounter<$at>, op: &str| -> (String, String, $t) {
                let (g, by) = op[1..].split_once(':').unwrap();
                let by: $t = by.parse().unwrap();
                // n-grams in both forms that the counter accepts
                let v: Vec<String> = g.chars().map(|x| x.to_string()).collect();
                let r = match (&op[..1], by % 2) {
                    ("+", 1) => c.increment(&v[..], by),
                    ("+", _) => c.increment(&VecDeque::from(v), by),
                    ("-", 1) => c.decrement(&v[..], by),
                    _ => c.decrement(&VecDeque::from(v), by),
                };
                (op[..1].to_string(), g.to_string(), r)
            };
            let mut hs = vec![];
            for th in &a[6..] {
                let (c, th) = (c.clone(), th.clone());
                hs.push(thread::spawn(move || {
                    th.split(',').filter(|s| !s.is_empty()).map(|op| run(&c, op)).collect::<Vec<_>>()
                }));
            }
            let mut res = vec![];
            for h in hs {
                res.push(h.join().unwrap());
            }
            let nonzero = if size <= 64 { Some(c.nonzero()) } else { None };
            let mut maxes = vec![];
            for g in a[5].split(',').filter(|s| s.starts_with('?')) {
                let v: Vec<String> = g[1..].chars().map(|x| x.to_string()).collect();
                maxes.push((g[1..].to_string(), c.max_count(&v[..])));
            }
            let probes: Vec<_> = a[5].split(',').filter(|s| s.starts_with(['+', '-'])).map(|op| run(&c, op)).collect();
            println!("{}", serde_json::json!({"results": res, "nonzero": nonzero, "max_count": maxes, "probes": probes}));
        }};
    }
    match a[0].as_str() {
        "u8" => go!(AtomicU8, u8),
        "u32" => go!(AtomicU32, u32),
        _ => go!(AtomicU64, u64),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("lines") => lines(&a[1..]),
        Some("tokens") => tokens_enum(&a[1..]),
        Some("chars") => chars_enum(&a[1..]),
        Some("windows") => windows_enum(&a[1..]),
        Some("long") => windows_long(&a[1..]),
        Some("split") => split(&a[1..]),
        Some("topk") => topk_enum(&a[1..]),
        Some("topkbig") => topk_big(&a[1..]),
        Some("counter") => counter(&a[1..]),
        _ => std::process::exit(3),
    }
}
