pub(crate) use crate::gen;
#[allow(unused_imports)]
pub(crate) use crate::proto::*;
pub use crate::server::{Cmd, Outcome};
pub use crate::work::*;
#[allow(unused_imports)]
pub use serde_json::{json, Value};

pub mod api;
pub mod args;
pub mod cmds;
pub mod disc;
pub mod faults;
pub mod outs;
pub mod plain;
pub mod pretrained;
pub mod ranked;
pub mod uniq;

pub const LEVELS: &[(&str, &str)] = &[];

/// Returns (level, rule, assumptions).
pub fn run(env: &Env) -> Option<(&'static str, &'static str, Vec<&'static str>)> {
    let common = vec![
        "sequentially consistent interleavings of the synchronization operations (weak-memory reorderings are not explored)",
        "glibc, the kernel, the Rust standard library and third-party crates other than threadpool behave as documented",
    ];
    Some(match env.id.as_str() {
        "C01" => {
            ranked::exact(env, false);
            ("model_checking", "corpora x options enumerated exhaustively up to the stated sizes, schedules of the listed configurations explored by dynamic partial-order reduction; distinct: different (case, outcome) or (corpus, options) with a non-empty expected result", common)
        }
        "C02" => {
            ranked::loose(env, false);
            ("model_checking", "corpora x options x table sizes from one slot, schedules by dynamic partial-order reduction; distinct: different (corpus, options) and (case, outcome)", common)
        }
        "C03" => {
            ranked::exact(env, true);
            ranked::loose(env, true);
            ranked::p_keep(env);
            ("model_checking", "as C01 and C02, for botk", common)
        }
        "C04" => {
            plain::c04(env);
            ("model_checking", "corpora x search terms enumerated exhaustively up to the stated sizes plus size ladders, schedules of the listed configurations by dynamic partial-order reduction; distinct: different (case, outcome) or non-empty corpora x terms", common)
        }
        "C05" => {
            plain::c05_06(env, false);
            ("model_checking", "corpora x patterns, schedules by dynamic partial-order reduction; distinct: different non-empty (corpus, patterns, options) and (case, outcome)", common)
        }
        "C06" => {
            plain::c05_06(env, true);
            ("model_checking", "corpora x patterns x location limits, schedules (with channel capacities down to 1) by dynamic partial-order reduction; distinct: different non-empty (corpus, patterns, options) and (case, outcome)", common)
        }
        "C07" => {
            plain::c07_08(env, true, false);
            ("model_checking", "corpora x worker counts, schedules by dynamic partial-order reduction; distinct: different non-empty (corpus, options) and (case, outcome)", common)
        }
        "C08" => {
            plain::c07_08(env, false, true);
            ("model_checking", "corpora x worker counts, schedules by dynamic partial-order reduction; distinct: different non-empty (corpus, options) and (case, outcome)", common)
        }
        "C09" => {
            uniq::c09(env);
            ("model_checking", "corpora x table sizes x hash counts, schedules by dynamic partial-order reduction; distinct: different (corpus, options)", common)
        }
        "C10" => {
            uniq::c10(env);
            ("model_checking", "pairs of executions that differ only in schedule, worker count, path order, table seed or ambient randomness; distinct: different (command, corpus, options)", common)
        }
        "C11" => {
            faults::c11(env);
            ("model_checking", "commands x kinds and positions of failures x worker counts x output modes, all enumerated; every cut and every changed byte of small compressed files; schedules by dynamic partial-order reduction; distinct: different (command, failure, position, options)", common)
        }
        "C12" => {
            faults::c12(env);
            ("model_checking", "positions of the first, second and third failure of each file's attempts x files x workers, all enumerated; schedules by dynamic partial-order reduction; distinct: different (corpus, fault plan, options)", common)
        }
        "C13" => {
            env.selftest();
            faults::c13(env);
            ("model_checking", "commands x corpora x failures x channel capacities, schedules by dynamic partial-order reduction; a run that blocks for ever is recognised as such; distinct: different (case, outcome)", common)
        }
        "C14" => {
            outs::c14(env);
            ("model_checking", "commands x spellings of the output path x old contents x outcomes (success, every kind of failure), all enumerated; the whole working directory compared before and after; schedules by dynamic partial-order reduction; distinct: different (command, output, outcome, options)", common)
        }
        "C15" => {
            outs::c15(env);
            ("model_checking", "commands x corpora x output modes x old contents; option grids for generated names; every write of file and standard output failing in every way; schedules by dynamic partial-order reduction; distinct: different (command, corpus, options) and faults", common)
        }
        "C16" => {
            disc::c16(env);
            ("model_checking", "every directory tree of up to three entries from a pool of names, special directory names next to decoys, argument lists x file limits, links and unreadable directories; distinct: different (tree) or (arguments, limit)", common)
        }
        "C17" => {
            plain::c17(env);
            ("model_checking", "commands x corpora x limits, schedules by dynamic partial-order reduction; distinct: different (command, corpus, limit)", common)
        }
        "C18" => {
            api::c18(env);
            ("model_checking", "every content over {a, newline, two-byte character, carriage return} up to the stated length x every split into members x reading modes x read sizes; every cut, every flipped bit, a fault at every read; distinct: different (content group, mode, read size) and faults", common)
        }
        "C19" => {
            api::c19(env);
            ("model_checking", "every text over a 36-character alphabet up to the stated length and every Unicode character in seven contexts, each compared with the reference inside the harness; the same alphabet through the commands; distinct: different jobs and corpora", common)
        }
        "C20" => {
            api::c20(env);
            ("model_checking", "every token sequence up to the stated length x every window size; small corpora and document boundaries through iterator, topk, botk, unique and count; distinct: different (corpus, n)", common)
        }
        "C21" => {
            api::c21(env);
            ("model_checking", "programs of one to four threads x table sizes x hash counts x counter types x starting values; schedules by dynamic partial-order reduction; distinct: different (program, outcome)", common)
        }
        "C22" => {
            api::c22(env);
            ("model_checking", "every sequence of insertions and drains up to the stated length for the stated k and numbers of n-grams; long sequences of eight patterns; ties through topk; distinct: different jobs and corpora", common)
        }
        "C23" => {
            args::c23(env);
            ("model_checking", "commands x invalid arguments x output modes; valid spellings of every option with exact results; every table size up to the stated number of bytes; numbers x units of --size compared with the same number of bytes; distinct: different (command, arguments)", common)
        }
        "C24" => {
            pretrained::c24(env);
            ("model_checking", "commands x corpora x three tokenizers (words, characters, one adding special tokens) x output modes; every way a tokenizer can be missing or broken; schedules by dynamic partial-order reduction; distinct: different non-empty (command, corpus, tokenizer, options)", common)
        }
        _ => return None,
    })
}
