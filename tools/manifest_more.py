PYE = "exhaustive enumeration of bounded inputs, splits and orders, run on the real programs against a reference model"
C += [
    ("P01", PYE, "model_checking"),
    ("P02", PYE, "model_checking"),
    ("P03", PYE, "model_checking"),
    ("P04", PYE, "model_checking"),
    ("P05", "explicit-state exploration of all interleavings of the real code under a controlled scheduler (locks, shared memory, process pool); exhaustive enumeration of shards", "model_checking"),
    ("P06", PYE, "model_checking"),
    ("P07", "exhaustive enumeration of small indexes, arguments and sequences of calls on the real functions against an explicit-state model of the index", "model_checking"),
    ("P08", "exhaustive enumeration of indexes, page sizes and arrival points of concurrent writes on the real functions against an explicit-state model of the index", "model_checking"),
    ("P09", "explicit-state exploration of all interleavings of the real code under a controlled scheduler with a crash after every file-system effect, followed by resumption", "model_checking"),
    ("P10", PYE, "model_checking"),
    ("P11", "exhaustive enumeration of sequences of operations on the real store, with a crash after every file-system effect, against an explicit-state model", "model_checking"),
    ("P12", "exhaustive enumeration of stop points and crash points (after every request and file-system effect), repeated, of the real programs, followed by resumption", "model_checking"),
    ("P13", "exhaustive enumeration of documents, options and histories of interrupted attempts on the real program against an explicit-state model of the index", "model_checking"),
]
