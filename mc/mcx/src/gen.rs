//! Exhaustive input spaces (tiny corpora, size ladders).
use crate::model::{t, Corpus, Doc, File};

/// Small documents over two letters: every text shape up to three tokens matters for ties,
/// overlaps, repeats, and documents shorter than the window.
pub fn tiny_docs() -> Vec<Doc> {
    vec![
        t(""),
        t("a"),
        t("b"),
        t("a a"),
        t("a b"),
        t("b a"),
        t("b b a"),
        t("a a a"),
        Doc::Null,
    ]
}

/// All files with at most `max` documents from `docs`.
pub fn files(docs: &[Doc], max: usize) -> Vec<File> {
    let mut out = vec![File { docs: vec![] }];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for f in &last {
            for d in docs {
                let mut g = f.clone();
                g.docs.push(d.clone());
                next.push(g);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All corpora of exactly `n` files from `fs`.
pub fn corpora(fs: &[File], n: usize) -> Vec<Corpus> {
    let mut out: Vec<Corpus> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for c in &out {
            for f in fs {
                let mut d = c.clone();
                d.push(f.clone());
                next.push(d);
            }
        }
        out = next;
    }
    out
}

/// Corpora of one and two files with up to two documents each, without those that differ only by
/// exchanging the two letters being kept (both kept: ties are broken by letter).
pub fn tiny_corpora() -> Vec<Corpus> {
    let fs = files(&tiny_docs(), 2);
    let mut v = corpora(&fs, 1);
    v.extend(corpora(&fs, 2));
    v
}

/// One file of at most 2 documents, two or three files of at most one.
pub fn small_corpora() -> Vec<Corpus> {
    let mut v = corpora(&files(&tiny_docs(), 2), 1);
    let one = files(&tiny_docs(), 1);
    v.extend(corpora(&one, 2));
    v.extend(corpora(&one, 3));
    v
}

/// Sizes at which implementations like to change behaviour.
pub fn ladder(max: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    let mut p = 16;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    for q in [99, 100, 101, 127, 200, 255, 300, 999, 1000, 1001, 10_000, 10_001, 100_000] {
        v.push(q);
    }
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

/// Larger sizes, just above powers of two and of ten.
pub fn heights(quick: bool) -> Vec<usize> {
    let mut v = vec![4097, 5001, 8193, 10_001, 16_385, 20_001, 32_769, 50_001, 65_537, 100_001, 131_073];
    if !quick {
        v.extend([3073, 9999, 10_000, 16_383, 32_767, 40_001, 65_535, 65_536, 99_999, 100_000, 131_071, 200_001, 262_145, 500_001, 524_289, 1_000_001, 1_048_577]);
    }
    v
}

/// Texts with unusual characters: white space of all kinds, combining marks, emoji sequences,
/// punctuation, numbers, CJK, right-to-left, control characters, escapes.
pub fn odd_texts() -> Vec<String> {
    [
        "",
        " ",
        "\u{a0}",
        "\u{3000}\u{2003}",
        "\t\n\r",
        "a\u{a0}b",
        "a\nb",
        "a\r\nb",
        "a\tb\u{b}c\u{c}d",
        "line\u{2028}sep\u{2029}par\u{85}nel",
        "don't can't",
        "3.14 1,000.5 v1.2.3",
        "e\u{301}a \u{301}",
        "👩\u{200d}👩\u{200d}👧 🇩🇪🇫🇷 👍🏽",
        "你好世界 こんにちは カタカナ",
        "שלום 'עולם' \"א\"ב\"",
        "a.b_c-d/e\\f",
        "\"quoted\" {\"json\": [1,2]}",
        "\u{0}\u{1}\u{1f}",
        "\u{feff}bom \u{200b}zwsp\u{200b}x \u{ad}soft\u{ad}hy",
        "...---...",
        "$5 €10 50% #tag @me http://x.y/z?q=1&r=2",
        "ﬁ ß İ ı",
        "a  b   c",
        " lead",
        "trail ",
        "ends\n",
        "\nstarts and ends\n\n",
        "crlf\r\n",
        "tab\t",
        "ab c a bc abc",
        "a\u{1680}b\u{180e}c\u{202f}d",
        "x\u{10ffff}y \u{e000}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// A deterministic stream of numbers.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// `n` distinct words.
pub fn words(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("w{i}")).collect()
}

/// Documents whose one-grams have the given counts, spread over `files` files round robin.
pub fn spread(counts: &[(String, usize)], files: usize, per_doc: usize) -> Corpus {
    let mut c: Corpus = vec![File::default(); files];
    let mut i = 0;
    let mut cur: Vec<Vec<String>> = vec![vec![]; files];
    let max = counts.iter().map(|x| x.1).max().unwrap_or(0);
    for round in 0..max {
        for (w, n) in counts {
            if round < *n {
                let f = i % files;
                cur[f].push(w.clone());
                if cur[f].len() == per_doc {
                    c[f].docs.push(t(&cur[f].join(" ")));
                    cur[f].clear();
                }
                i += 1;
            }
        }
    }
    for f in 0..files {
        if !cur[f].is_empty() {
            c[f].docs.push(t(&cur[f].join(" ")));
        }
    }
    c
}
