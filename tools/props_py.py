# The Python and shell programs of the repository; executed by tools/props.py.
NOPY = "No test of the repository touches its Python or shell programs."

prop("P01", "map/reduce analyses count every document exactly once",
 "For the counting analyses (URL scheme, URL host, image extension, utterance year, sentence lengths, tokens per host, high-level domain, language, link existence), running the mapper on every file and the reducer on the concatenated outputs reports for each key exactly the sum over all documents, each document once. The result does not depend on how the documents are split over files, on the order in which the mappers' outputs arrive or on the number of documents, and no key is reported twice; a file that cannot be read to its end makes run.sh fail.",
 ["inputs", "schedules"],
 "all sequences of documents, all splits over files, all arrival orders of mapper outputs",
 NOPY, ["wimbd/scheme_counts", "wimbd/url_counts", "wimbd/extension_counts", "wimbd/utterance_dates", "wimbd/sentence_lengths", "wimbd/url_per_tok_counts", "wimbd/high_level_domain_counts", "wimbd/language", "wimbd/link_exists", "wimbd/utils/utils.py"],
 [("mapper counts per file, reducer sums", "wimbd/*/map_count.py, wimbd/*/reduce_count.py"), ("parallel mappers", "wimbd/*/run.sh")],
 ["stdout of reduce_count.py", "stdout of run.sh"])

prop("P02", "batched classifiers do not depend on the batch size",
 "The profanity (model, per sentence, taxonomy), language and sentiment analyses classify every non-blank document exactly once, over-long ones as such, whatever --bs is and however the documents fall into batches and files. For every word list of the taxonomy, each of its words counts where it stands as a whole word, and the mean sentiment of a term is the exact mean over the sentences that contain it.",
 ["inputs", "configurations"],
 "all sequences of documents (empty, null, blank, over-long ones included) and batch sizes",
 NOPY, ["wimbd/profanity", "wimbd/language", "wimbd/sentiment_coocurrence", "wimbd/utils/utils.py"],
 [("batches filled from the file, the last one partial", "wimbd/*/map_count.py"), ("word list regular expressions", "wimbd/profanity/map_count.py load_taxonomy")],
 ["stdout of reduce_count.py"])

prop("P03", "each PII match is judged by its own context",
 "The PII analysis reports one e-mail address, phone number or IP address for every match of the published pattern in every document, except matches excluded by the context rules: an address without a dot in the domain or with the user part '('; a phone number or IP address within 50 characters of isbn, doi, # (phone numbers: of a URL). Each match is judged at its own position, so the decision does not depend on other matches or on equal text elsewhere in the document. Only documents of more than 500000 characters or with the listed runs of punctuation are left out.",
 ["inputs"],
 "all texts composed of matches, keywords, fillers and characters whose lower case is longer",
 NOPY, ["wimbd/pii"],
 [("context window around the match", "wimbd/pii/map_count.py postprocess_*")],
 ["stdout of reduce_count.py"])

prop("P04", "overlap analysis counts and intersects duplicates exactly",
 "The text and URL overlap tools give, for every data set, the exact number of documents per distinct text hash or URL, exactly the keys that occur more than once, the exact numbers of documents and clusters among duplicates, and for every combination of data sets exactly the keys they share. Examples retrieved for a key are documents with this key, and all results are independent of the order in which parallel mappers finish, of the split over files and of an earlier analysis at the same place. A file that cannot be read to its end makes the tools fail.",
 ["inputs", "schedules"],
 "all data sets over small key alphabets, all combinations, all orders of mapper completion",
 NOPY, ["wimbd/text_and_url_overlaps"],
 [("sort | uniq -c over hashes", "wimbd/text_and_url_overlaps/helper_scripts/*.sh"), ("comm over sorted keys", "wimbd/text_and_url_overlaps/helper_scripts/run_dataset_overlaps.sh")],
 ["files and stdout of run_analysis.sh and its steps"])

prop("P05", "deduplication keeps exactly one copy under every schedule",
 "deduplicate_by_hash with --keep_first_occurrence keeps exactly one document of every text on the blocklist over all shards, and without it none; all other documents are kept unchanged and in order, under every schedule of the worker processes. The marks, the numbers printed per shard, per source and in total, and the files agree, there is neither deadlock nor a lost update, and deduplicate.py and decontaminate.py build the blocklist of exactly the duplicated or evaluation texts or fail.",
 ["schedules", "inputs"],
 "all interleavings of the worker processes at lock and shared memory operations; all small shards and lists, repeated lines included",
 NOPY, ["wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py", "wimbd/text_and_url_overlaps/deduplicate.py", "wimbd/text_and_url_overlaps/decontaminate.py"],
 [("seen flags in a shared memory map under one lock", "wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py process_shard")],
 ["output files", "stdout"],
 [dict(name="seen_array", meaning="which texts of the list have been kept", where="deduplicate_by_hash.py")])

prop("P06", "splitting data sets loses, repeats and alters nothing",
 "Splitting every *.jsonl.gz file of a folder into n parts yields, per file, exactly n parts whose concatenation is the file, in an order-preserving partition, for every file name and without touching anything else. The train/validation/test split assigns every document of the input to exactly one of the three files, each with the fixed seed's choice, its original fields and the SHA-1 of its text as id.",
 ["inputs", "configurations"],
 "all numbers of lines and parts, file names with dots, several files per folder, all small data sets for the three-way split",
 NOPY, ["wimbd/utils/file_split.py", "wimbd/utils/split_files.py"],
 [("parts of len // n lines, the last with the rest", "wimbd/utils/file_split.py"), ("random choice per document", "wimbd/utils/split_files.py")],
 ["output files"])

prop("P07", "Elasticsearch counting functions count exactly the matching documents",
 "Each counting function (documents containing a phrase, all or any of several, total occurrences of unigrams) and each multi-query variant returns exactly what a scan of the index with the documented matching gives, for one index or several, every combination of filters, slop and subset options, and every batch size. No call changes its caller's arguments or what a later call returns.",
 ["inputs", "configurations", "histories"],
 "all small indexes, phrases and option combinations, all sequences of two calls with shared arguments",
 NOPY, ["wimbd/es/__init__.py"],
 [("queries built from the arguments", "wimbd/es/__init__.py"), ("subset filter for c4", "wimbd/es/__init__.py")],
 ["return values", "arguments after the call"])

prop("P08", "retrieval from an index returns every document exactly once",
 "Retrieving the documents that contain phrases returns every matching document exactly once over all pages, for every page size, ties among sort values and documents indexed in between, up to the number of documents asked for. Random documents are documents of the index asked for, drawn from its saved ids so that every one can come up; connections use the credentials of the configuration named, and the listing reports every index with its counts.",
 ["inputs", "histories"],
 "all assignments of sort values, page sizes and points at which documents arrive; all small id files, sizes and seeds",
 NOPY, ["wimbd/es/__init__.py", "wimbd/es/random_access.py", "wimbd/indexing/__init__.py"],
 [("search_after over a point in time", "wimbd/es/__init__.py get_documents_containing_phrases"), ("ids drawn from HDF5", "wimbd/es/random_access.py")],
 ["return values", "requests sent to the server"])

prop("P09", "downloading a data set survives interruption at any point",
 "Downloading a Hugging Face data set writes every example of every split exactly once and unaltered, in order, for every batch size and number of workers and under every schedule of the worker threads. If the program is killed after any file-system effect, however often, running it again with the same arguments completes to exactly the same files.",
 ["schedules", "crash-points", "histories"],
 "all interleavings of worker threads, a crash after every file-system effect of every schedule, histories of repeated crashes",
 NOPY, ["wimbd/indexing/huggingface.py"],
 [("finished batches are skipped on resumption", "wimbd/indexing/huggingface.py"), ("batch files written by a thread pool", "wimbd/indexing/huggingface.py")],
 ["files in the output folder"])

prop("P10", "samples and length summaries: every chosen document, every length once",
 "The sampling tool prints exactly the documents its random draws choose (all with fraction 1, none with fraction 0), each once, in order, with the sampled key's own value. The listed lengths contain one line for every distinct text with the text's own number of tokens and characters, whichever characters it contains, and the summary draws each data set's distribution under its own name, tokens as tokens and characters as characters.",
 ["inputs", "configurations"],
 "all sequences of documents and all outcomes of the random draws; all sets of texts with repeated ones and special characters; all distributions of lengths up to the bounds",
 NOPY, ["wimbd/random_sample", "wimbd/sentence_lengths", "wimbd/utils/utils.py"],
 [("one draw per document", "wimbd/random_sample/map_count.py"), ("sort -u over lines with text and lengths", "wimbd/sentence_lengths/run_uniq.sh, map_unique_lengths.py"), ("distributions drawn", "wimbd/sentence_lengths/summarize.py")],
 ["stdout", "lines written by run_uniq.sh", "data handed to the plotting library"])

prop("P11", "the prompt template store keeps every template, whatever happens",
 "After every sequence of adding, updating, renaming, removing and reopening, the store holds exactly the templates put in and not removed, with all their fields, whatever other datasets or subsets are in it. A crash at any point of an operation leaves each dataset as before or after the operation. Applying a template gives the rendered parts it describes within the length limits, and the contamination tables contain the fields of every template, each dataset's own.",
 ["histories", "crash-points", "inputs"],
 "all sequences of operations up to the depth, a crash after every file-system effect of each, all small templates and values",
 NOPY, ["wimbd/contamination/templates.py", "wimbd/contamination/utils.py", "wimbd/contamination"],
 [("templates.yaml per dataset and subset", "wimbd/contamination/templates.py DatasetTemplates"), ("cache of open datasets", "wimbd/contamination/templates.py TemplateCollection.get_dataset")],
 ["templates in the store read by a new process", "rendered prompts", "return values"],
 [dict(name="datasets_templates", meaning="the datasets open in this process", where="wimbd/contamination/templates.py TemplateCollection")])

prop("P12", "preparing The Stack and mC4 loses and repeats nothing when interrupted",
 "The list of urls names every file of every language exactly once, every file listed is downloaded and converted to the same documents, and mC4's parts are combined and converted with every document once, in order and with its language. If a program is stopped or a request fails at any point, running it again with the same arguments completes to exactly the same files, and nothing finished is fetched again.",
 ["crash-points", "histories", "inputs"],
 "all small sets of languages and files, a stop at every request and a crash after every file-system effect, repeated",
 NOPY, ["preparation/stack", "preparation/mc4"],
 [("resumes after what the list contains", "preparation/stack/get_urls.py"), ("skips files that exist", "preparation/stack/download_url.py, download_url.sh"), ("skips combined and converted objects that exist", "preparation/mc4")],
 ["list of urls", "files and objects written", "requests"])

prop("P13", "indexing puts every document with text into the index exactly once",
 "Indexing the files of a list puts every document whose text is neither null nor empty into the named index exactly once, with its fields except those skipped and under its own id, for every number of files, bulk size and order in which the bulk helper works. A document whose id is in the index already is left as it is: repeating it after a lost connection completes the index without duplicates, a document the server refuses makes it fail, and the ids saved are exactly the ids of the documents indexed.",
 ["inputs", "histories"],
 "all small lists of documents per file, failures after every number of documents, all repetitions",
 NOPY, ["wimbd/indexing/index_json_files.py"],
 [("bulk actions per file", "wimbd/indexing/index_json_files.py")],
 ["documents in the index", "saved ids"])
