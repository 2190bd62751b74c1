//! C24: the commands with a pretrained tokenizer. The tokenizers lie in the model cache of the
//! scratch directory, nothing is fetched.
use super::cmds::*;
use super::plain::{Ask, Case};
use super::ranked::{bounds, describe};
use super::*;
use crate::model::*;

/// (name, reference tokenizer, its definition)
const TOKS: [(&str, u8, &str); 3] = [
    (
        "words",
        1,
        r#"{"version":"1.0","truncation":null,"padding":null,"added_tokens":[],"normalizer":{"type":"Lowercase"},
"pre_tokenizer":{"type":"WhitespaceSplit"},"post_processor":null,"decoder":null,
"model":{"type":"WordLevel","vocab":{"unk":0,"a":1,"b":2,"c":3,"ab":4,"a,b":5},"unk_token":"unk"}}"#,
    ),
    (
        "chars",
        2,
        r#"{"version":"1.0","truncation":null,"padding":null,"added_tokens":[],"normalizer":null,
"pre_tokenizer":{"type":"Split","pattern":{"Regex":"(?m)[\\s\\S]"},"behavior":"Isolated","invert":false},"post_processor":null,"decoder":null,
"model":{"type":"WordLevel","vocab":{"unk":0,"a":1,"b":2," ":3,"A":4},"unk_token":"unk"}}"#,
    ),
    (
        "marks",
        1,
        r#"{"version":"1.0","truncation":null,"padding":null,
"added_tokens":[{"id":6,"content":"[M]","single_word":false,"lstrip":false,"rstrip":false,"normalized":false,"special":true}],
"normalizer":{"type":"Lowercase"},"pre_tokenizer":{"type":"WhitespaceSplit"},
"post_processor":{"type":"TemplateProcessing","single":[{"SpecialToken":{"id":"[M]","type_id":0}},{"Sequence":{"id":"A","type_id":0}},{"SpecialToken":{"id":"[M]","type_id":0}}],
"pair":[{"Sequence":{"id":"A","type_id":0}},{"Sequence":{"id":"B","type_id":1}}],"special_tokens":{"[M]":{"id":"[M]","ids":[6],"tokens":["[M]"]}}},
"decoder":null,"model":{"type":"WordLevel","vocab":{"unk":0,"a":1,"b":2,"c":3,"ab":4,"a,b":5},"unk_token":"unk"}}"#,
    ),
];

fn install(env: &Env, name: &str, text: &[u8]) {
    let d = env.scratch.join(format!("hf/hub/models--{name}"));
    std::fs::create_dir_all(d.join("refs")).unwrap();
    std::fs::create_dir_all(d.join("snapshots/x")).unwrap();
    std::fs::write(d.join("refs/main"), "x").unwrap();
    std::fs::write(d.join("snapshots/x/tokenizer.json"), text).unwrap();
}

fn docs() -> Vec<Doc> {
    vec![t(""), t("a"), t("b"), t("A a"), t("a,b"), t("q a"), t(" b\u{a0}A "), t("ab a ab"), Doc::Null]
}

pub fn c24(env: &Env) {
    let q = env.quick();
    for (n, _, d) in TOKS {
        install(env, n, d.as_bytes());
    }
    let mut corp: Vec<Corpus> = gen::corpora(&gen::files(&docs(), 2), 1);
    let one = gen::files(&docs(), 1);
    corp.extend(gen::corpora(&one, 2));
    if !q {
        corp.extend(gen::corpora(&one, 3));
        corp.extend(gen::corpora(&gen::files(&docs(), 3), 1));
    }
    // schedules
    let fl = |fs: &[&[&str]]| -> Corpus { fs.iter().map(|f| file(f)).collect() };
    let mut sched = vec![];
    for (i, w) in [W::Topk, W::Botk, W::Count, W::Stats].into_iter().enumerate() {
        let (name, k, _) = TOKS[i % 3];
        sched.push((w, name, k, fl(&[&["A q"], &["a b"]])));
        sched.push((w, TOKS[(i + 1) % 3].0, TOKS[(i + 1) % 3].1, fl(&[&["a"], &["A"]])));
    }
    let secs = if q { 5.0 } else { 60.0 };
    env.par("schedules", &sched, |ctx, (w, name, k, c)| {
        let mut r = R::new(*w).j(2);
        r.extra = vec!["-t".into(), name.to_string()];
        let paths = ctx.env.corpus(c);
        let j = with_tok(*k, || r.judge_out(c, &paths));
        let cmd = r.cmd(ctx.env, &paths);
        ctx.deepen(&format!("{} {name} {}", r.label(), describe(c)), &cmd, &bounds(ctx.env), secs, &*j);
    });
    // small corpora
    env.par("small corpora x tokenizers", &corp, |ctx, c| {
        let hh = hash64(describe(c).as_bytes()) as usize;
        let paths = ctx.env.corpus(c);
        for (ti, (name, k, _)) in TOKS.iter().enumerate() {
            for (wi, w) in [W::Topk, W::Botk, W::Count, W::Stats, W::Unique].into_iter().enumerate() {
                let mut r = R::new(w).j(1 + (hh + wi) % 2);
                r.quiet = (hh + ti) % 2 == 0;
                r.n = if w == W::Count || w == W::Stats { 1 } else { 1 + (hh + wi + ti) % 3 };
                r.free = w == W::Unique;
                if (hh + wi) % 5 == 0 {
                    r.limit = Some(1);
                }
                r.extra = if (hh + wi) % 2 == 0 { vec!["-t".into(), name.to_string()] } else { vec![format!("--tokenizer={name}")] };
                let j = with_tok(*k, || r.judge_out(c, &paths));
                let cmd = r.cmd(ctx.env, &paths);
                let label = format!("{} {name} {}", r.label(), describe(c));
                if c.iter().any(|f| !f.docs.is_empty()) {
                    ctx.env.distinct(&label);
                }
                ctx.eval(&label, &cmd, &*j);
            }
        }
    });
    // search strings are tokenized the same way
    let asks: Vec<Vec<&str>> = vec![vec!["A"], vec!["a", "A", " a "], vec!["q", "z"], vec!["a b", "A\u{a0}B"], vec!["a,b", "ab"], vec![" "], vec!["", "a"], vec!["a a", "a"], vec!["  "], vec!["ab a", "ab"]];
    env.par("search strings", &corp, |ctx, c| {
        let paths = ctx.env.corpus(c);
        for (name, k, _) in TOKS {
            for a in &asks {
                let mut cs = Case::new(format!("search strings {name}"), c.clone(), Ask::Count(a.iter().map(|s| s.to_string()).collect())).free();
                cs.extra = vec![format!("--tokenizer={name}")];
                let none = with_tok(k, || a.iter().any(|s| tokens(s).is_empty()));
                let j = with_tok(k, || cs.judge(&paths));
                let cmd = cs.cmd(ctx.env, &paths);
                ctx.eval(&cs.label(), &cmd, &|o| if none { must_fail(o) } else { j(o) });
            }
        }
    });
    // all texts of up to 5 tokens and all search strings of up to 3, which may overlap themselves and each other
    let words = |n: usize| -> Vec<String> { (1..=n).flat_map(|l| (0..1usize << l).map(move |m| (0..l).map(|i| if m >> i & 1 == 0 { "a" } else { "b" }).collect::<Vec<_>>().join(" "))).collect() };
    let asks: Vec<String> = words(3);
    env.par("overlapping occurrences", &words(if q { 5 } else { 7 }), |ctx, tx| {
        let c: Corpus = vec![file(&[tx, "b"])];
        let paths = ctx.env.corpus(&c);
        for (name, k, _) in TOKS {
            let mut cs = Case::new(format!("overlapping {name}"), c.clone(), Ask::Count(asks.clone())).free();
            cs.extra = vec![format!("--tokenizer={name}")];
            let j = with_tok(k, || cs.judge(&paths));
            let cmd = cs.cmd(ctx.env, &paths);
            ctx.env.distinct(&cs.label());
            ctx.eval(&cs.label(), &cmd, &*j);
        }
    });
    // texts of every kind and length
    let mut texts: Vec<String> = gen::odd_texts();
    for d in gen::ladder(if q { 1025 } else { 10_000 }) {
        texts.push(vec!["a"; d].join(" "));
        texts.push("Ab ".repeat(d));
        texts.push("q".repeat(d));
    }
    // lower case is a matter of the tokenizer's library for other scripts
    texts.retain(|s| s.chars().all(|c| c.is_ascii() || c.to_lowercase().eq([c])));
    env.par("texts", &texts, |ctx, tx| {
        let c: Corpus = vec![file(&[tx, "a b", tx]), file(&[tx])];
        let paths = ctx.env.corpus(&c);
        for (name, k, _) in TOKS {
            for (wi, w) in [W::Topk, W::Botk, W::Count, W::Stats].into_iter().enumerate() {
                let mut r = R::new(w).j(1 + wi % 2);
                r.n = 1 + wi % 2;
                r.free = true;
                r.extra = vec!["-t".into(), name.to_string()];
                let j = with_tok(k, || r.judge_out(&c, &paths));
                let cmd = r.cmd(ctx.env, &paths);
                let label = format!("text {} {name} {}", r.label(), describe(&c));
                ctx.env.distinct(&label);
                ctx.eval(&label, &cmd, &*j);
            }
        }
    });
    // no such tokenizer, or one that cannot be read
    let good = TOKS[0].2.as_bytes();
    let mut bad: Vec<(String, Vec<u8>)> = vec![("b0".into(), vec![]), ("b1".into(), b"{}".to_vec()), ("b2".into(), b"null".to_vec()), ("b3".into(), vec![0xff, 0xfe])];
    for i in 1..if q { 8 } else { 60 } {
        bad.push((format!("cut{i}"), good[..good.len() * i / if q { 8 } else { 60 }].to_vec()));
    }
    for (n, b) in &bad {
        install(env, n, b);
    }
    let mut names: Vec<String> = bad.iter().map(|b| b.0.clone()).collect();
    names.extend(["nosuch".to_string(), "Words".into(), "".into(), "no/such/thing".into()]);
    let paths = env.corpus(&fl(&[&["a b"], &["a"]]));
    env.par("missing and broken tokenizers", &names, |ctx, n| {
        for w in [W::Topk, W::Botk, W::Count, W::Stats, W::Unique] {
            for m in 0..3 {
                let mut r = R::new(w);
                r.json = m > 0;
                r.quiet = m == 2;
                r.extra = vec![format!("--tokenizer={n}")];
                let cmd = r.cmd(ctx.env, &paths);
                ctx.env.distinct(&format!("{} {n}", r.label()));
                ctx.eval(&format!("{} {n}", r.label()), &cmd, &must_fail);
            }
        }
    });
}
