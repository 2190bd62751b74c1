//! Independent reference semantics of the commands, over abstract corpora.
use regex::Regex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Doc {
    Text(String),
    Null,    // {"text": null}
    Missing, // {"id": 1}
}

pub fn t(s: &str) -> Doc {
    Doc::Text(s.to_string())
}

impl Doc {
    pub fn text(&self) -> Option<&str> {
        match self {
            Doc::Text(s) => Some(s),
            _ => None,
        }
    }
    pub fn line(&self) -> String {
        match self {
            Doc::Text(s) => format!("{}\n", json!({ "text": s })),
            Doc::Null => "{\"text\":null}\n".into(),
            Doc::Missing => "{\"id\":1}\n".into(),
        }
    }
}

/// One input file: its documents in order.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct File {
    pub docs: Vec<Doc>,
}

pub type Corpus = Vec<File>;

pub fn file(docs: &[&str]) -> File {
    File { docs: docs.iter().map(|s| t(s)).collect() }
}

pub fn cut(c: &Corpus, limit: usize) -> Corpus {
    c.iter().map(|f| File { docs: f.docs.iter().take(limit).cloned().collect() }).collect()
}

thread_local! {
    static TOK: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

/// Evaluate `f` with another tokenizer in place: 1 lower-case words, 2 characters (see checks/pretrained.rs).
pub fn with_tok<T>(k: u8, f: impl FnOnce() -> T) -> T {
    TOK.with(|c| c.set(k));
    let r = f();
    TOK.with(|c| c.set(0));
    r
}

/// Segments between word boundaries that are not entirely white space.
pub fn tokens(s: &str) -> Vec<String> {
    let known = |w: String, v: &[&str]| if v.contains(&w.as_str()) { w } else { "unk".to_string() };
    match TOK.with(|c| c.get()) {
        1 => return s.to_lowercase().split_whitespace().map(|w| known(w.to_string(), &["a", "b", "c", "ab", "a,b"])).collect(),
        2 => return s.chars().map(|c| known(c.to_string(), &["a", "b", " ", "A"])).collect(),
        _ => {}
    }
    s.split_word_bounds().filter(|w| w.chars().any(|c| !c.is_whitespace())).map(|w| w.to_string()).collect()
}

pub type Counts = BTreeMap<Vec<String>, u64>;

pub fn ngram_counts(c: &Corpus, n: usize) -> Counts {
    let mut m = Counts::new();
    for f in c {
        for d in &f.docs {
            if let Some(s) = d.text() {
                let tk = tokens(s);
                let mut i = 0;
                while i + n <= tk.len() {
                    *m.entry(tk[i..i + n].to_vec()).or_insert(0) += 1;
                    i += 1;
                }
            }
        }
    }
    m
}

/// Exact top-k: count descending, then n-gram descending.
pub fn topk(c: &Corpus, n: usize, k: usize, threshold: u64) -> Vec<(Vec<String>, u64)> {
    let mut v: Vec<(Vec<String>, u64)> = ngram_counts(c, n).into_iter().filter(|e| e.1 > threshold).collect();
    v.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| b.0.cmp(&a.0)));
    v.truncate(k);
    v
}

/// Exact bottom-k: count ascending, then n-gram descending.
pub fn botk(c: &Corpus, n: usize, k: usize, threshold: u64) -> Vec<(Vec<String>, u64)> {
    let mut v: Vec<(Vec<String>, u64)> = ngram_counts(c, n).into_iter().filter(|e| e.1 < threshold).collect();
    v.sort_by(|a, b| a.1.cmp(&b.1).then_with(|| b.0.cmp(&a.0)));
    v.truncate(k);
    v
}

pub fn ranked_json(v: &[(Vec<String>, u64)]) -> Vec<Value> {
    v.iter()
        .enumerate()
        .map(|(i, (ng, c))| json!({"tokens": ng, "string": ng.join(" "), "count": c, "rank": i + 1}))
        .collect()
}

pub fn count(c: &Corpus, searches: &[&str]) -> BTreeMap<Vec<String>, u64> {
    let mut out = BTreeMap::new();
    let mut by_len: BTreeMap<usize, Counts> = BTreeMap::new();
    for s in searches {
        let want = tokens(s);
        if want.len() > 16 {
            let docs = c.iter().flat_map(|f| &f.docs).filter_map(|d| d.text());
            let k = docs.map(|d| tokens(d).windows(want.len()).filter(|w| *w == want.as_slice()).count() as u64).sum();
            out.insert(want, k);
            continue;
        }
        let n = by_len.entry(want.len().max(1)).or_insert_with(|| ngram_counts(c, want.len().max(1)));
        let k = n.get(&want).copied().unwrap_or(0);
        out.insert(want, k);
    }
    out
}

pub fn count_json(m: &BTreeMap<Vec<String>, u64>) -> Vec<Value> {
    m.iter().map(|(tk, c)| json!({"tokens": tk, "string": tk.join(" "), "count": c})).collect()
}

/// pattern -> (count, file index -> [(line, text, [(start, end)])])
pub type Matches = BTreeMap<String, (u64, BTreeMap<usize, Vec<(usize, String, Vec<(usize, usize)>)>>)>;

pub fn search(c: &Corpus, patterns: &[&str]) -> Matches {
    let mut out = Matches::new();
    for p in patterns {
        let re = Regex::new(p).unwrap();
        let mut total = 0;
        let mut per = BTreeMap::new();
        for (i, f) in c.iter().enumerate() {
            let mut v = vec![];
            for (l, d) in f.docs.iter().enumerate() {
                if let Some(s) = d.text() {
                    let ms: Vec<(usize, usize)> = re.find_iter(s).map(|m| (m.start(), m.end())).collect();
                    total += ms.len() as u64;
                    if !ms.is_empty() {
                        v.push((l + 1, s.to_string(), ms));
                    }
                }
            }
            if !v.is_empty() {
                per.insert(i, v);
            }
        }
        out.insert(p.to_string(), (total, per));
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Stats {
    pub tokens: u64,
    pub documents: u64,
    pub bytes: u64,
    pub max: u64,
    pub min: u64, // u64::MAX if there is none
    pub max_docs: BTreeSet<(usize, u64)>,
    pub min_docs: BTreeSet<(usize, u64)>,
}

pub fn stats(c: &Corpus) -> Stats {
    let mut s = Stats { min: u64::MAX, ..Default::default() };
    let mut lens: Vec<(usize, u64, u64)> = vec![];
    for (i, f) in c.iter().enumerate() {
        for (l, d) in f.docs.iter().enumerate() {
            s.documents += 1;
            s.bytes += d.line().len() as u64;
            if let Some(tx) = d.text() {
                let n = tokens(tx).len() as u64;
                s.tokens += n;
                lens.push((i, l as u64 + 1, n));
            }
        }
    }
    if !lens.is_empty() {
        s.max = lens.iter().map(|x| x.2).max().unwrap();
        s.min = lens.iter().map(|x| x.2).min().unwrap();
        s.max_docs = lens.iter().filter(|x| x.2 == s.max).map(|x| (x.0, x.1)).collect();
        s.min_docs = lens.iter().filter(|x| x.2 == s.min).map(|x| (x.0, x.1)).collect();
    }
    s
}

// ------------------------------------------------------------------ judging what was printed

pub fn lines(out: &str) -> Result<Vec<Value>, String> {
    if !out.is_empty() && !out.ends_with('\n') {
        return Err(format!("output does not end with a newline: {out:?}"));
    }
    out.lines()
        .map(|l| serde_json::from_str::<Value>(l).map_err(|e| format!("output line is not JSON ({e}): {l:?}")))
        .collect()
}

pub fn judge_ranked(out: &str, want: &[(Vec<String>, u64)]) -> Result<(), String> {
    let got = lines(out)?;
    let want = ranked_json(want);
    if got != want {
        return Err(format!("printed {} but the exact result is {}", show(&got), show(&want)));
    }
    Ok(())
}

pub fn show(v: &[Value]) -> String {
    let s: Vec<String> = v
        .iter()
        .take(12)
        .map(|v| match (v.get("tokens"), v.get("count")) {
            (Some(t), Some(c)) => format!("{t}x{c}"),
            _ => v.to_string(),
        })
        .collect();
    format!("[{}{}]", s.join(", "), if v.len() > 12 { format!(", ... ({} in all)", v.len()) } else { String::new() })
}

pub fn judge_count(out: &str, want: &BTreeMap<Vec<String>, u64>) -> Result<(), String> {
    let mut got = lines(out)?;
    let mut want = count_json(want);
    got.sort_by_key(|v| v.to_string());
    want.sort_by_key(|v| v.to_string());
    if got != want {
        return Err(format!("printed {} but the true counts are {}", show(&got), show(&want)));
    }
    Ok(())
}

pub fn judge_stats(out: &str, want: &Stats, names: &[String], totals: bool, pointers: bool) -> Result<(), String> {
    let got = lines(out)?;
    if got.len() != 1 {
        return Err(format!("{} output lines instead of 1: {out:?}", got.len()));
    }
    let g = &got[0];
    let num = |k: &str| g.get(k).and_then(|v| v.as_u64()).ok_or_else(|| format!("no number {k:?} in {g}"));
    if totals {
        for (k, w) in [
            ("total_tokens", want.tokens),
            ("total_documents", want.documents),
            ("total_bytes", want.bytes),
            ("document_max_tokens", want.max),
            ("document_min_tokens", want.min),
        ] {
            let v = num(k)?;
            if v != w {
                return Err(format!("{k} is {v} but should be {w}"));
            }
        }
    }
    if pointers {
        for (k, w, n) in [("max_token_documents", &want.max_docs, want.max), ("min_token_documents", &want.min_docs, want.min)]
        {
            let l = g.get(k).and_then(|v| v.as_array()).ok_or_else(|| format!("no list {k:?} in {g}"))?;
            let mut seen: BTreeMap<(String, u64), u64> = BTreeMap::new();
            for e in l {
                let p = e.get("path").and_then(|v| v.as_str()).unwrap_or("?").to_string();
                let ln = e.get("line").and_then(|v| v.as_u64()).unwrap_or(0);
                let nt = e.get("num_tokens").and_then(|v| v.as_u64()).unwrap_or(u64::MAX);
                if nt != n {
                    return Err(format!("{k} lists {p}:{ln} with {nt} tokens, the extreme is {n}"));
                }
                *seen.entry((p, ln)).or_insert(0) += 1;
            }
            let w: BTreeMap<(String, u64), u64> = w.iter().map(|(i, l)| ((names[*i].clone(), *l), 1)).collect();
            if seen != w {
                return Err(format!("{k} is {seen:?} (document -> times listed) but should be {w:?}"));
            }
        }
    }
    Ok(())
}

pub fn judge_search_counts(out: &str, want: &Matches) -> Result<(), String> {
    let got = lines(out)?;
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    for g in &got {
        let p = g.get("pattern").and_then(|v| v.as_str()).ok_or_else(|| format!("no pattern in {g}"))?;
        let c = g.get("count").and_then(|v| v.as_u64()).ok_or_else(|| format!("no count in {g}"))?;
        if m.insert(p.to_string(), c).is_some() {
            return Err(format!("pattern {p:?} is reported twice"));
        }
    }
    let w: BTreeMap<String, u64> = want.iter().map(|(p, (c, _))| (p.clone(), *c)).collect();
    if m != w {
        return Err(format!("printed {m:?} but the true match counts are {w:?}"));
    }
    Ok(())
}

pub fn judge_locations(out: &str, want: &Matches, names: &[String], limit: Option<u64>) -> Result<(), String> {
    let got = lines(out)?;
    if got.len() != want.len() {
        return Err(format!("{} results for {} patterns", got.len(), want.len()));
    }
    for g in &got {
        let p = g.get("pattern").and_then(|v| v.as_str()).unwrap_or("?").to_string();
        let (total, per) = match want.get(&p) {
            Some(x) => x,
            None => return Err(format!("pattern {p:?} was not asked for")),
        };
        let m = g.get("matches").and_then(|v| v.as_object()).ok_or_else(|| format!("no matches in {g}"))?;
        let byname: HashMap<&str, usize> = names.iter().enumerate().map(|(i, n)| (n.as_str(), i)).collect();
        let mut listed = 0u64;
        let mut full: BTreeMap<usize, Vec<(usize, String, Vec<(usize, usize)>)>> = BTreeMap::new();
        for (path, locs) in m {
            let i = *byname.get(path.as_str()).ok_or_else(|| format!("{p:?}: unknown file {path:?}"))?;
            let mut v = vec![];
            for l in locs.as_array().ok_or("matches of a file are not a list")? {
                let line = l.get("line_num").and_then(|v| v.as_u64()).ok_or_else(|| format!("no line_num in {l}"))? as usize;
                let text = l.get("text").and_then(|v| v.as_str()).ok_or_else(|| format!("no text in {l}"))?.to_string();
                let mut subs = vec![];
                for s in l.get("submatches").and_then(|v| v.as_array()).ok_or_else(|| format!("no submatches in {l}"))? {
                    let a = s.get("start_col").and_then(|v| v.as_u64()).unwrap_or(u64::MAX) as usize;
                    let b = s.get("end_col").and_then(|v| v.as_u64()).unwrap_or(u64::MAX) as usize;
                    subs.push((a, b));
                }
                listed += subs.len() as u64;
                v.push((line, text, subs));
            }
            full.insert(i, v);
        }
        match limit {
            None => {
                full.retain(|_, v| !v.is_empty());
                if &full != per {
                    return Err(format!("{p:?}: locations {full:?} but the matches are at {per:?}"));
                }
            }
            Some(l) => {
                if listed != l.min(*total) {
                    return Err(format!("{p:?}: {listed} locations listed, expected min({l}, {total})"));
                }
                for (i, v) in &full {
                    let mut last = 0;
                    for (line, text, subs) in v {
                        if *line <= last {
                            return Err(format!("{p:?}: lines of {} are not in order", names[*i]));
                        }
                        last = *line;
                        let t = per.get(i).and_then(|d| d.iter().find(|d| d.0 == *line));
                        match t {
                            Some((_, tx, ms)) => {
                                let mut k = 0;
                                for s in subs {
                                    while k < ms.len() && ms[k] != *s {
                                        k += 1;
                                    }
                                    if k == ms.len() {
                                        return Err(format!("{p:?}: {}:{line} has no match at {s:?} (or it is repeated)", names[*i]));
                                    }
                                    k += 1;
                                }
                                if tx != text {
                                    return Err(format!("{p:?}: {}:{line} has text {tx:?}, not {text:?}", names[*i]));
                                }
                            }
                            None => return Err(format!("{p:?}: {}:{line} has no match", names[*i])),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// What must hold of topk output for any table (collisions allowed).
pub fn judge_over(out: &str, truth: &Counts, k: usize, threshold: u64) -> Result<(), String> {
    let got = lines(out)?;
    if got.len() > k {
        return Err(format!("{} n-grams reported for k={k}", got.len()));
    }
    let mut seen = BTreeSet::new();
    let mut last = u64::MAX;
    for (i, g) in got.iter().enumerate() {
        let ng: Vec<String> = g
            .get("tokens")
            .and_then(|v| v.as_array())
            .ok_or_else(|| format!("no tokens in {g}"))?
            .iter()
            .map(|x| x.as_str().unwrap_or("?").to_string())
            .collect();
        let c = g.get("count").and_then(|v| v.as_u64()).ok_or_else(|| format!("no count in {g}"))?;
        let tr = *truth.get(&ng).ok_or_else(|| format!("{ng:?} is reported but does not occur"))?;
        if c < tr {
            return Err(format!("{ng:?} is reported with count {c} but occurs {tr} times"));
        }
        if !seen.insert(ng.clone()) {
            return Err(format!("{ng:?} is reported twice"));
        }
        if g.get("rank").and_then(|v| v.as_u64()) != Some(i as u64 + 1) {
            return Err(format!("rank {:?} in position {}", g.get("rank"), i + 1));
        }
        if c > last {
            return Err(format!("counts are not in descending order at rank {}", i + 1));
        }
        last = c;
        if c <= threshold {
            return Err(format!("{ng:?} is reported with count {c}, not above the threshold {threshold}"));
        }
    }
    if got.len() < k {
        for (ng, c) in truth {
            if *c > threshold && !seen.contains(ng) {
                return Err(format!("only {} of {k} reported, but {ng:?} occurring {c} times is not among them", got.len()));
            }
        }
    }
    Ok(())
}

/// What must hold of botk output for any table.
pub fn judge_under(out: &str, truth: &Counts, k: usize, threshold: u64) -> Result<(), String> {
    let got = lines(out)?;
    if got.len() > k {
        return Err(format!("{} n-grams reported for k={k}", got.len()));
    }
    let mut seen = BTreeSet::new();
    let mut last = 0;
    for (i, g) in got.iter().enumerate() {
        let ng: Vec<String> = g
            .get("tokens")
            .and_then(|v| v.as_array())
            .ok_or_else(|| format!("no tokens in {g}"))?
            .iter()
            .map(|x| x.as_str().unwrap_or("?").to_string())
            .collect();
        let c = g.get("count").and_then(|v| v.as_u64()).ok_or_else(|| format!("no count in {g}"))?;
        let tr = *truth.get(&ng).ok_or_else(|| format!("{ng:?} is reported but does not occur"))?;
        if c < tr {
            return Err(format!("{ng:?} is reported with count {c} but occurs {tr} times"));
        }
        if !seen.insert(ng.clone()) {
            return Err(format!("{ng:?} is reported twice"));
        }
        if g.get("rank").and_then(|v| v.as_u64()) != Some(i as u64 + 1) {
            return Err(format!("rank {:?} in position {}", g.get("rank"), i + 1));
        }
        if c < last {
            return Err(format!("counts are not in ascending order at rank {}", i + 1));
        }
        last = c;
        if c >= threshold {
            return Err(format!("{ng:?} is reported with count {c}, not below the threshold {threshold}"));
        }
    }
    Ok(())
}
