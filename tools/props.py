#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

NOCLI = "The 14 existing tests (7, run in lib and bin) call the n-gram iterator, the tokenizer, one counter and one top-k insert sequence on one thread with one input; no test runs a CLI command, a worker thread or a file read."

prop("C01", "topk is exact under every schedule",
 "When the counting table is large enough that no collision occurs, `wimbd topk` prints exactly the k n-grams with the highest true corpus counts among those occurring more than --threshold times, ranked by descending count, with exact counts (among n-grams tied at the cut-off the lexicographically larger ones are kept, and are listed first). The result is the same for every number of workers, every interleaving of the worker threads with the collector, every order and split of the documents over files, and with and without --u64.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of worker and collector threads; all corpora; all k, n, hash counts, thresholds, worker counts",
 NOCLI, ["src/cmd/topk.rs", "src/cmd/util.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs"],
 [("shared counting table incremented per n-gram; the last incrementer sees the final count", "src/ngrams/counter.rs increment"),
  ("per-file top-k merged into the global one through a bounded channel", "src/cmd/topk.rs"),
  ("collector loop ends only when all results are in", "src/cmd/topk.rs, src/cmd/util.rs done/join")],
 ["stdout of `wimbd topk --json`", "exit status"],
 [dict(name="count table", meaning="per-slot counts shared by the workers", where="src/ngrams/counter.rs"),
  dict(name="min count of the current top-k", meaning="pruning bound published to workers", where="src/ngrams/topk.rs")])

prop("C02", "topk counts over-approximate, never under-report, for any table size",
 "Whatever the size of the counting table (down to a single slot), the number of hash functions, the seed and the schedule, the count `wimbd topk` reports for an n-gram is at least its true count, every n-gram reported occurs in the corpus, none is reported twice, the ranks are 1..m with non-increasing counts, and at most k are reported. If fewer than k n-grams are reported, every n-gram whose true count exceeds the threshold is among them.",
 ["schedules", "inputs", "configurations"],
 "all table sizes incl. heavy collisions, all seeds, all interleavings",
 NOCLI + " Collisions never occur in them.", ["src/cmd/topk.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs"],
 [("minimum over hash functions of over-counting slots", "src/ngrams/counter.rs increment")],
 ["stdout of `wimbd topk --json`"])

prop("C03", "botk finds the least common n-grams, exactly when collision-free",
 "When the table is large enough that no collision occurs, `wimbd botk` prints exactly the k n-grams of the corpus with the lowest true counts below --threshold (by default every n-gram qualifies), with exact counts in ascending order (ties: lexicographically larger first), for every worker count, schedule and file order. With any smaller table it still prints only n-grams that occur in the corpus, none twice, at most k, with counts no lower than the true ones; --p-keep only removes n-grams from consideration and with value 1 changes nothing.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of both passes, all corpora, k, n, thresholds, table sizes, worker counts, seeds",
 NOCLI, ["src/cmd/botk.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs"],
 [("first pass decrements from the maximum; second pass ranks inverse counts", "src/cmd/botk.rs"),
  ("maximum over hash functions of inverse counts", "src/ngrams/counter.rs decrement/max_count")],
 ["stdout of `wimbd botk --json`"])

prop("C04", "count reports the exact number of token-sequence occurrences",
 "For every search string, `wimbd count` reports exactly the number of positions (overlapping ones included, never across documents) at which its token sequence occurs in the tokenized documents, one result per distinct token sequence, whatever the other search strings of the same call are, the worker count, the schedule and the split of the documents over files.",
 ["schedules", "inputs", "configurations"],
 "all corpora and search strings, all interleavings",
 NOCLI, ["src/cmd/count.rs", "src/cmd/util.rs", "src/tokens.rs"],
 [("sliding window comparison against every search sequence", "src/cmd/count.rs count_occurences"), ("shared atomic counters", "src/cmd/count.rs")],
 ["stdout of `wimbd count --json`"])

prop("C05", "search reports the exact number of regex matches",
 "For every pattern given, `wimbd search` reports exactly the number of non-overlapping leftmost matches of the regular expression in the text of all documents, one result per distinct pattern, whatever the other patterns, the options for locations, the worker count, the schedule and the split of the documents over files.",
 ["schedules", "inputs", "configurations"],
 "all corpora and patterns, all interleavings, with and without locations and limits",
 NOCLI, ["src/cmd/search.rs", "src/cmd/util.rs"],
 [("regex find_iter per document; shared atomic counters", "src/cmd/search.rs")],
 ["stdout of `wimbd search --json`"])

prop("C06", "search --with-locations lists every match with its true location",
 "With --with-locations, `wimbd search` lists for each pattern every file that contains a match and, for each matching document, the document text, its 1-based line number in the file (lines in order) and the byte ranges of its matches in order; nothing is missing, duplicated or attributed to another file, line or pattern, under every schedule. With --locations-limit L exactly min(L, number of matches) match ranges are listed per pattern, each of them a true match, and the reported counts are unchanged. A file given several times is read, counted and listed as often.",
 ["schedules", "inputs", "configurations"],
 "all corpora, patterns, limits, worker counts and interleavings of workers with the collector, including a full results channel",
 NOCLI, ["src/cmd/search.rs", "src/cmd/util.rs"],
 [("per-file match lists sent through a bounded channel to the collector", "src/cmd/search.rs"), ("limit decided by a shared counter", "src/cmd/search.rs")],
 ["stdout of `wimbd search --json --with-locations`"])

prop("C07", "stats totals are exact",
 "`wimbd stats` reports exactly the number of documents (lines), of tokens and of uncompressed bytes of the processed lines, and the largest and smallest token count of any document that has a text, for every corpus (including empty files, empty texts and documents whose text is missing or null), every worker count, schedule and split of the documents over files.",
 ["schedules", "inputs"],
 "all corpora, all interleavings",
 NOCLI, ["src/cmd/stats.rs", "src/cmd/util.rs"],
 [("per-file statistics merged with atomic add/max/min", "src/cmd/stats.rs")],
 ["stdout of `wimbd stats --json`"])

prop("C08", "stats points at exactly the longest and shortest documents",
 "The documents `wimbd stats` lists as having the most (fewest) tokens are exactly all documents that attain the reported maximum (minimum), each listed once with its file, its 1-based line number and its token count, under every schedule of the workers and every order in which files finish.",
 ["schedules", "inputs"],
 "all corpora (ties within and across files included), all interleavings of the per-file merges",
 NOCLI, ["src/cmd/stats.rs"],
 [("pointer lists merged under a lock and pruned against the current extremes", "src/cmd/stats.rs prune_documents and callback")],
 ["stdout of `wimbd stats --json`"])

prop("C09", "unique estimates the number of distinct n-grams",
 "`wimbd unique` reports the number of distinct n-grams of the corpus: with a table much larger than the corpus the report equals the true number of distinct n-grams, whatever the number of hash functions. For every table size, seed and number of hash functions the report depends only on the set of n-grams in the corpus (not on how often or in which order they occur, the schedule, the worker count or the split over files), never decreases when n-grams are added, and is zero exactly when the corpus has no n-gram.",
 ["schedules", "inputs", "configurations"],
 "all corpora, table sizes, hash counts, seeds, interleavings; more than 255 occurrences of one n-gram",
 NOCLI, ["src/cmd/unique.rs", "src/ngrams/counter.rs"],
 [("Bloom filter with saturating 8-bit slots; cardinality derived from the number of set slots", "src/cmd/unique.rs, src/ngrams/counter.rs nonzero")],
 ["stdout of `wimbd unique --json`"])

prop("C10", "a seed makes results reproducible",
 "Two runs of `wimbd topk`, `botk` (without --p-keep) or `unique` with the same --seed, arguments and input on one worker print identical results in different processes, however small the table; for `unique` this holds for any number of workers and any schedule. Every seed value from 0 to the largest 64-bit number is accepted, and different seeds give different hash functions.",
 ["inputs", "configurations", "histories"],
 "all pairs of processes, all seeds, table sizes small enough to make collisions matter",
 NOCLI + " Nothing compares two processes.", ["src/ngrams/counter.rs", "src/cmd/botk.rs"],
 [("hash functions derived from the seed", "src/ngrams/counter.rs new"), ("file order shuffled by a seeded generator", "src/cmd/botk.rs")],
 ["stdout of two processes with different ambient randomness"])

prop("C11", "no failure is ever turned into a silently partial result",
 "If any input file cannot be read to its end (missing, unreadable, read error, truncated or corrupt compression, invalid UTF-8, a line that is not a valid JSON document), or a worker thread dies, the command exits with a non-zero status, prints no result on standard output and leaves an output file without results, for every position of the failure, every schedule and every worker count. A command that exits zero has accounted for every line of every file it was to read; failures of `stats` that are retried successfully count as no failure.",
 ["fault_sequences", "schedules", "inputs"],
 "every read of every input failing with every error kind, every truncation point of a compressed file, every malformed line position, every interleaving of the failing worker with the others and with the collector",
 NOCLI + " No test injects a fault.", ["src/cmd/util.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/search.rs", "src/cmd/count.rs", "src/cmd/unique.rs", "src/cmd/stats.rs", "src/io.rs"],
 [("early-exit flag, error slot and panic count checked when joining the workers", "src/cmd/util.rs"), ("errors propagated through the line iterator", "src/io.rs")],
 ["exit status, stdout, output file"])

prop("C12", "stats counts each file exactly once across retries",
 "If reading a file fails and is retried, a successful `wimbd stats` run reports exactly the same totals, extremes and document lists as a run without failures: nothing read by a failed attempt is counted. A file is given up (and the run fails) only after three failed attempts at that file.",
 ["fault_sequences", "schedules", "inputs"],
 "every sequence of up to four read failures at every read position of every file, with every schedule of the workers up to the bound",
 NOCLI, ["src/cmd/util.rs", "src/cmd/stats.rs"],
 [("fresh per-attempt context, merged only after the whole file was read", "src/cmd/util.rs execute_with_callback/process_file")],
 ["stdout of `wimbd stats --json`, exit status"])

prop("C13", "every command terminates under every schedule",
 "Every command ends with a result or an error for every schedule of its threads, without deadlock and without waiting for a thread that will never act, however many results are waiting to be collected, whatever the worker count, and also when a worker fails or dies.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings, including a results channel that is full, and failures at any point",
 NOCLI, ["src/cmd/util.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/search.rs"],
 [("bounded results channel drained by the main thread until all workers are finished", "src/cmd/topk.rs, botk.rs, search.rs")],
 ["process exit"])

prop("C14", "an existing output file is never touched without --force",
 "Unless --force is given, a command whose output file already exists fails and leaves the file byte for byte unchanged; no command ever creates, modifies or deletes any file other than its output file. A command given --force replaces only its output file.",
 ["histories", "configurations"],
 "all sequences of commands over a directory, with every combination of existing and missing outputs, generated names, parent directories",
 NOCLI, ["src/util.rs", "src/cmd/topk.rs", "src/cmd/stats.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/botk.rs"],
 [("existence check before opening the output", "src/util.rs get_output_file")],
 ["file system before and after, exit status"])

prop("C15", "the output file holds exactly the results, and write failures are reported",
 "After a successful command with --out, the output file (with --force, whatever it held before) contains exactly the JSON lines the same command prints with --json and nothing else, and without --json the readable output states the same results; a directory or extensionless name given to `topk` or `botk` yields one .jsonl file inside it whose name differs for calls that differ in n, k, hashes, limit or seed, and missing parent directories are created. If writing the file or standard output fails, the command does not exit with status zero.",
 ["histories", "fault_sequences", "configurations"],
 "all sequences of commands writing to the same path with longer and shorter results; every write failing or being short",
 NOCLI, ["src/util.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/stats.rs", "src/cmd/count.rs", "src/cmd/search.rs"],
 [("output opened once, one line written per result", "src/cmd/*.rs"), ("truncation on overwrite", "src/util.rs get_output_file")],
 ["content of the output file, exit status"])

prop("C16", "input discovery finds each matching file exactly once",
 "A directory given as input stands for exactly the files below it, at any depth, whose name contains `.json` followed later by a final `.gz`, each read exactly once (symbolic links to directories aside); a file given directly is read whatever its name. A directory whose own name contains characters special to glob patterns is treated literally, a directory without a matching file is an error, and --file-limit N processes exactly the first N files of the resulting list (a file named by two arguments is read twice).",
 ["inputs", "configurations"],
 "all small directory trees and names over an alphabet with glob metacharacters, nested and hidden entries; all argument lists",
 NOCLI, ["src/cmd/util.rs"],
 [("glob over **/*.json*.gz per directory argument", "src/cmd/util.rs expand_dirs")],
 ["stdout of `wimbd stats --json`"])

prop("C17", "a line limit applies per file, exactly",
 "With --limit N every command behaves exactly as if each input file ended after its first N lines, including when N is 0 or larger than the file, for every schedule; nothing after line N of a file influences the result or makes the command fail on its content.",
 ["inputs", "configurations", "schedules"],
 "all limits around the file lengths, all commands, malformed content after the limit",
 NOCLI, ["src/cmd/util.rs"],
 [("the line iterator is cut after the limit", "src/cmd/util.rs process_file")],
 ["stdout of every command"])

prop("C18", "the gzip line reader yields every line exactly, and errors are not lost",
 "Reading a gzip file line by line yields exactly the lines of its decompressed content in order (line terminators included, last line with or without one, any line length, any number of concatenated gzip members), however the operating system splits the reads, and a line handed out earlier never changes when later ones are read. A failing read, compressed data that is corrupt or cut in the middle of a member, and invalid UTF-8 appear as an error, never as a clean end of the file.",
 ["inputs", "fault_sequences"],
 "all small files over an alphabet of line shapes, all member splits, all read chunk sizes, all patterns of keeping earlier lines alive, every truncation point",
 "No existing test opens a file.", ["src/io.rs"],
 [("a shared line buffer reused only when no one else holds it", "src/io.rs GzBufReader::next")],
 ["public reader API"])

prop("C19", "tokenization keeps every non-space character exactly once, in order",
 "The tokens of a text are the segments between Unicode word boundaries that contain at least one non-whitespace character, in order: they are non-overlapping pieces of the text, everything between them is whitespace, none consists of whitespace only, and tokenizing the same text twice gives the same tokens.",
 ["inputs"],
 "all texts up to a bounded length over an alphabet with one character per word-break class that matters",
 "One English sentence is tested.", ["src/tokens.rs"],
 [("word-bound split followed by a whitespace filter", "src/tokens.rs tokenize")],
 ["public tokenize function"])

prop("C20", "n-gram windows are complete and never cross documents",
 "The n-grams of a token sequence of length m are exactly its max(0, m-n+1) contiguous windows of n tokens, in order; the public n-gram iterator and the `topk`, `botk`, `unique` and `count` commands agree on them, and no window ever combines tokens of two documents or two files.",
 ["inputs", "configurations"],
 "all token sequences up to a bounded length, all n, all splits into documents and files",
 "Four fixed sequences are tested on the iterator, none on the commands.", ["src/ngrams/mod.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/unique.rs", "src/cmd/count.rs"],
 [("sliding memory of n-1 tokens", "src/ngrams/mod.rs"), ("per-document deque", "src/cmd/topk.rs, botk.rs, unique.rs")],
 ["public iterator and stdout of the commands"])

prop("C21", "the concurrent n-gram counter never loses an update",
 "For every set of threads applying increments to one counter, once all increments have returned, the stored count of each n-gram is at least the sum of its increments (capped at the largest value of the counter type) and the largest value returned by the increments of an n-gram is at least that sum; the same holds for decrements as an upper bound on the remaining count. A count never wraps around: it saturates at the type's largest value (at zero for decrements), and a slot that was incremented stays non-zero. With one hash function, n-grams that do not collide are counted exactly.",
 ["schedules", "histories", "inputs"],
 "all interleavings of up to three threads with up to three operations each on forced-collision tables of one to four slots, with 8-bit counters near saturation",
 "The existing test calls increment twice on one thread and asserts nothing.", ["src/ngrams/counter.rs"],
 [("atomic adds with clamping", "src/ngrams/counter.rs increment/decrement")],
 ["public counter API (values returned, counts read back)"])

prop("C22", "the top-k tracker equals a sorted map under every operation sequence",
 "After any sequence of insertions and drains, draining the tracker yields exactly the k largest distinct n-grams by (highest count inserted, n-gram) among those inserted since the last drain with a count of at least 1, in descending order and without duplicates. The published minimum count never exceeds the smallest count kept once k are held, and is 1 after a drain.",
 ["histories"],
 "all operation sequences up to a bounded depth over n-grams and counts small enough to force ties, updates and evictions",
 "One sequence of six insertions into a tracker with room for all is tested.", ["src/ngrams/topk.rs"],
 [("ordered set plus map, evicting the smallest", "src/ngrams/topk.rs insert/drain")],
 ["public tracker API"])

prop("C23", "invalid arguments are rejected cleanly, valid ones accepted",
 "Zero for k, n, the number of hashes or the table size, a --size too small to hold one counter or too large to allocate, a --p-keep outside (0,1], a --locations-limit without --with-locations, an invalid regular expression, a missing search string, pattern or input, and (for count and search) a file limit of zero make a command fail with an error message, a non-zero status, no result and no panic. A --size without unit means GiB and with a unit means that unit; every size that leaves at least one counter is accepted.",
 ["configurations", "inputs"],
 "all combinations of boundary values of the options of every command",
 NOCLI, ["src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/unique.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/util.rs"],
 [("argument validation before the work starts", "src/cmd/*.rs main"), ("size parsing", "src/cmd/util.rs parse_size_default_to_gb")],
 ["exit status, stderr, stdout"])

prop("C24", "a pretrained tokenizer changes the tokens and nothing else",
 "With --tokenizer NAME, `topk`, `botk`, `count`, `stats` and `unique` give exactly the results they give without it on texts (and search strings) whose tokens are those of that tokenizer, special tokens not added: exact ranks and counts, windows within documents only, every schedule and worker count. The reported string of an n-gram is its decoding. A tokenizer that does not exist or cannot be loaded makes the command fail without a result.",
 ["inputs", "schedules", "configurations"],
 "all small corpora and search strings for three tokenizers (words, characters, one with special tokens), all truncations of a tokenizer's definition",
 "No test loads a tokenizer.", ["src/tokens.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/count.rs", "src/cmd/stats.rs", "src/cmd/unique.rs"],
 [("wrapper around the tokenizers library", "src/tokens.rs PretrainedTokenizer"), ("branches on the tokenizer", "src/cmd/*.rs")],
 ["stdout of the commands"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_py.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_py.py")) else None

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P))
