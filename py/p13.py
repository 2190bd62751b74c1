"""Indexing: every document with text ends up in the index exactly once, also after interrupted attempts."""
import itertools, json, os
import lib, fakees
from lib import Bad, expect, count, gz, lines, seqs

DOCS = [{"text": "a", "url": "u1"}, {"text": "b c", "x": 1}, {"text": ""}, {"text": None}, {"text": "\u00e9" * 5 + "tail", "url": "u2", "x": 2}, {"text": "a", "url": "u1"}, {"text": " \n", "url": ""}, {"text": "0", "x": None}]


LAYOUTS = {
    "plain": lambda i: f"f{i}.jsonl.gz",
    "one name in several folders": lambda i: f"{'xyz'[i % 3]}/{'' if i < 3 else 'deep/'}f.jsonl.gz",
    "nested": lambda i: "a/" * i + "f.jsonl.gz",
    "names that contain one another": lambda i: f"f{'-1' * i}.jsonl.gz",
    "one stem": lambda i: ["f.jsonl.gz", "f.json.gz", "f.gz", "f"][i % 4] + "x" * (i // 4),
}


def setup(files, layout="plain", style=None):
    """files: list of lists of document numbers"""
    d = lib.scratch()
    names = []
    n = 0
    rows = []
    for i, f in enumerate(files):
        r = []
        for k in f:
            r.append({**DOCS[k], "id": f"id{n}"})
            n += 1
        rows.append(r)
        p = os.path.join(d, LAYOUTS[layout](i))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        names.append(lib.put(p, gz(lines(r)) if style is None else lib.styles(r)[style][1]))
    lib.put(os.path.join(d, "names"), "".join(x + "\n" for x in names))
    lib.put(os.path.join(d, "conf.yml"), "cloud_id: c\napi_key: k\n")
    return d, names, rows


def go(d, *args):
    r = lib.script("wimbd/indexing/index_json_files.py", ["--filenames-path", os.path.join(d, "names"), "--es-config", os.path.join(d, "conf.yml"), *args], cwd=d)
    count("runs")
    return r


def alive(rows):
    return [(i, j, x) for i, r in enumerate(rows) for j, x in enumerate(r) if x["text"]]


def expected_src(x, idf, skipf, mx):
    y = dict(x)
    y["text"] = y["text"][:mx] if mx else y["text"]
    for f in skipf:
        if f != "text":
            y.pop(f, None)
    if idf:
        y.pop(idf, None)
    return y


def judge(s, index, rows, idf, skipf, mx, what, before=()):
    live = alive(rows)
    docs = s.idx.get(index, [])
    expect(len({d.id for d in docs}) == len(docs), f"{what}: repeated ids")
    new = [d for d in docs if d.id not in before]
    want = [expected_src(x, idf, skipf, mx) for i, j, x in live if not (idf and x[idf] in before)]
    key = lambda y: json.dumps(y, sort_keys=True)
    expect(sorted(key(d.src) for d in new) == sorted(key(y) for y in want), f"{what}: index has {sorted((d.id, key(d.src)) for d in new)!r:.1500}, should have {[key(y) for y in want]!r:.1500}")
    if idf:
        for i, j, x in live:
            d = next((d for d in docs if d.id == x[idf]), None)
            expect(d is not None, f"{what}: no document with id {x[idf]}")
    expect(set(s.idx) <= {index, "other"}, f"{what}: indices {sorted(s.idx)}")
    count("nontrivial", int(bool(live)))
    return [d.id for d in docs]


OPTS = [(idf, skipf, mx, bulk) for idf in (None, "id") for skipf in ((), ("url",), ("x", "url")) for mx in (None, 3) for bulk in (None, 1, 2)]


def contents(depth):
    def items():
        for f in seqs((0, 1, 2, 3, 4, 6, 7), 0, depth):
            yield (f,)
        for a in seqs((0, 2, 4), 0, 2):
            for b in seqs((0, 3), 0, 2):
                yield (a, b)
        yield ((0,), (), (2,), (3,), (1, 4, 0))

    def fn(files):
        for n, (idf, skipf, mx, bulk) in enumerate(OPTS):
            if len(files[0]) > 2 and n % 5 != sum(files[0]) % 5:
                continue
            d, names, rows = setup(files)
            s, es = fakees.new()
            s.order = n % 2
            a = ["--index", "Idx"]
            a += ["--id-field", idf] if idf else []
            a += ["--skip-fields", ",".join(skipf)] if skipf else []
            a += ["--max-doc-size", mx] if mx else []
            a += ["--bulk-docs", bulk] if bulk else []
            r = go(d, *a)
            what = f"files {rows}, {a}"
            expect(r.status == 0, lambda: f"{what}: failed: {r.trace or r.err}")
            ids = judge(s, "idx", rows, idf, skipf, mx, what)
            # once more: nothing changes
            r = go(d, *a)
            expect(r.status == 0, lambda: f"{what}: second run failed: {r.trace or r.err}")
            expect(judge(s, "idx", rows, idf, skipf, mx, what + ", second run") == ids, f"{what}: the second run changed the documents")
    return items, fn


def layouts():
    """Files that resemble one another in their names, stored in every way, given in either order, indexed twice."""
    def items():
        for l in LAYOUTS:
            for files in (((0,), (0,)), ((0, 1), (4,), (1, 0)), ((0, 0, 0), (1,), (0,), (4, 1))):
                for st in (None, *range(len(lib.styles([])))):
                    for rev in (0, 1):
                        yield l, files, st, rev

    def fn(it):
        l, files, st, rev = it
        for idf in (None, "id"):
            d, names, rows = setup(files, l, st)
            if rev:
                lib.put(os.path.join(d, "names"), "".join(x + "\n" for x in reversed(names)))
            s, es = fakees.new()
            for again in ("", ", again", ", once more in the other order"):
                if again.startswith(", once"):
                    lib.put(os.path.join(d, "names"), "".join(x + "\n" for x in (names if rev else reversed(names))))
                r = go(d, "--index", "i", *(["--id-field", idf] if idf else []))
                expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
                judge(s, "i", rows, idf, (), None, f"{it}, id field {idf}{again}")
    return items, fn


def saved_again():
    """The saved ids of a run on an index that has some of the documents already."""
    def items():
        for files in (((0, 1, 4),), ((0, 0), (1, 4)), ((2, 0, 3), (1,), (4,))):
            n = sum(map(len, files))
            for cut in range(n + 1):
                for bulk in (1, 2, 500):
                    for order in (0, 1):
                        yield files, cut, bulk, order

    def fn(it):
        files, cut, bulk, order = it
        for idf in (None, "id"):
            for save in (False, True):
                d, names, rows = setup(files)
                s, es = fakees.new()
                s.order = order
                fakees.H5.clear()
                p = os.path.join(d, "ids.h5")
                a = ["--index", "i", "--bulk-docs", bulk, *(["--id-field", idf] if idf else [])]
                s.fail_after = cut
                r = go(d, *a, *(["--save-ids-file", p + "0"] if save else []))
                s.fail_after = None
                for k in (1, 2):
                    what = f"{it}, id field {idf}, connection lost after {cut}, then complete run {k}"
                    r = go(d, *a, "--save-ids-file", p + str(k))
                    expect(r.status == 0, lambda: f"{what}: failed: {r.trace or r.err}")
                    judge(s, "i", rows, idf, (), None, what)
                    got = [b.decode() for b in fakees.H5[p + str(k)]["ids"].a]
                    have = [x.id for x in s.idx.get("i", [])]
                    expect(sorted(got) == sorted(have), f"{what}: saved ids {got}, ids in the index {have}")
                    if idf:
                        expect(got == [x["id"] for i, j, x in alive(rows)], f"{what}: saved ids {got} are not in order")
        count("nontrivial")
    return items, fn


def saved_ids():
    def items():
        for f in seqs((0, 2, 3), 0, 3):
            yield (f,), "ids"
        for a in seqs((0, 2), 0, 2):
            for b in seqs((0, 3), 0, 2):
                yield (a, b), "ids"
                yield (a, b, (0,)), "ids"

    def fn(it):
        files, _ = it
        for idf in (None, "id"):
            for bulk in (1, 500):
                d, names, rows = setup(files)
                s, es = fakees.new()
                fakees.H5.clear()
                p = os.path.join(d, "ids.h5")
                r = go(d, "--index", "i", "--save-ids-file", p, "--bulk-docs", bulk, *(["--id-field", idf] if idf else []))
                what = f"files {rows}, id field {idf}, bulk {bulk}"
                expect(r.status == 0, lambda: f"{what}: failed: {r.trace or r.err}")
                judge(s, "i", rows, idf, (), None, what)
                got = [b.decode() for b in fakees.H5[p]["ids"].a]
                have = [x.id for x in s.idx["i"]]
                expect(sorted(got) == sorted(have), f"{what}: saved ids {got}, ids in the index {have}")
                if idf:
                    expect(got == [x["id"] for i, j, x in alive(rows)], f"{what}: saved ids {got} are not in order")
    return items, fn


def long_ids():
    def items():
        for n in (1, 30, 36, 37, 38, 39, 40, 41, 60, 200):
            yield n

    def fn(n):
        d, names, rows = setup([(0, 1, 4)])
        rows = [[{**x, "id": "k" * n + str(i)} for i, x in enumerate(rows[0])]]
        lib.put(names[0], gz(lines(rows[0])))
        for idf in (None, "id"):
            s, es = fakees.new()
            fakees.H5.clear()
            p = os.path.join(d, "ids.h5")
            r = go(d, "--index", "i", "--save-ids-file", p, *(["--id-field", idf] if idf else []))
            expect(r.status == 0, lambda: f"{n}: failed: {r.trace or r.err}")
            got = [b.decode() for b in fakees.H5[p]["ids"].a]
            have = [x.id for x in s.idx["i"]]
            expect(sorted(got) == sorted(have), f"ids of length {len(have[0])}: saved {got}, in the index {have}")
            count("nontrivial")
    return items, fn


def interrupted(attempts):
    """The connection is lost after any number of documents, several times; then a complete run."""
    def items():
        for files in (((0, 1, 2, 4),), ((0, 2, 0), (3, 4)), ((0,), (1,), (4, 0))):
            n = sum(map(len, files))
            for cuts in itertools.product(range(n + 1), repeat=attempts):
                for bulk in (1, 2, 500):
                    for order in (0, 1):
                        yield files, cuts, bulk, order

    def fn(it):
        files, cuts, bulk, order = it
        for idf in (None, "id"):
            d, names, rows = setup(files)
            s, es = fakees.new()
            s.order = order
            a = ["--index", "i", "--bulk-docs", bulk, *(["--id-field", idf] if idf else [])]
            for k in cuts:
                s.fail_after = k
                r = go(d, *a)
                need = len(alive(rows))
                expect(r.status != 0 or k >= need, f"{it}: the connection was lost and the program reports success")
            s.fail_after = None
            r = go(d, *a)
            expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
            judge(s, "i", rows, idf, (), None, f"{it}, id field {idf}")
    return items, fn


def rejected():
    """A document the server refuses must not go unnoticed; one that is there already is fine."""
    def items():
        for k in range(5):
            for st in (400, 413, 429, 500, 503, 409):
                for bulk in (1, 2, 500):
                    yield k, st, bulk

    def fn(it):
        k, st, bulk = it
        d, names, rows = setup([(0, 1, 4), (0, 1)])
        s, es = fakees.new()
        s.status = {f"id{k}": st}
        r = go(d, "--index", "i", "--id-field", "id", "--bulk-docs", bulk)
        expect((r.status == 0) == (st == 409), lambda: f"document id{k} got status {st}: exit status {r.status}, {r.trace}")
    return items, fn


def more():
    def items():
        for skip in range(0, 7):
            for bulk in (1, 2, 500):
                yield "skip", skip, bulk
        for tf in ("text", "content", "x"):
            yield "field", tf, 0
        for sh in (None, 1, 7):
            yield "shards", sh, 0
        for name in ("ABC", "abc", "search-x"):
            yield "existing", name, 0
        for n in (499, 500, 501, 1001, 4000):
            yield "size", n, 0

    def fn(it):
        kind, v, bulk = it
        if kind == "skip":
            d, names, rows = setup([(0, 1, 4, 0, 1)])
            s, es = fakees.new()
            r = go(d, "--index", "i", "--skip", v, "--bulk-docs", bulk)
            expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
            judge(s, "i", [rows[0][v:]], None, (), None, f"{it}")
            ids = {x.id for x in s.idx["i"]}
            r = go(d, "--index", "i")
            judge(s, "i", rows, None, (), None, f"{it}, then all")
            expect(ids <= {x.id for x in s.idx["i"]}, f"{it}: the ids change with --skip")
            if v:
                d, names, rows = setup([(0, 1), (4,)])
                s, es = fakees.new()
                r = go(d, "--index", "i", "--skip", v)
                expect(r.status != 0 and not s.idx.get("i"), f"{it}: --skip with two files was accepted")
        elif kind == "field":
            d, names, rows = setup([(0,)])
            src = [{v: f"t{i}", "other": i} for i in range(3)]
            lib.put(names[0], gz(lines(src)))
            s, es = fakees.new()
            r = go(d, "--index", "i", "--text-field", v)
            expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
            got = sorted(json.dumps(x.src, sort_keys=True) for x in s.idx["i"])
            expect(got == [json.dumps({"text": f"t{i}", "other": i}, sort_keys=True) for i in range(3)], f"{it}: {got}")
        elif kind == "shards":
            d, names, rows = setup([(0, 1)])
            s, es = fakees.new()
            r = go(d, "--index", "i", *(["--num-shards", v] if v else []))
            expect(r.status == 0 and s.shards["i"] == (v or 4), lambda: f"{it}: {s.shards} {r.trace}")
        elif kind == "existing":
            d, names, rows = setup([(0, 1)])
            s, es = fakees.new()
            s.add(v.lower(), "old", {"text": "old"})
            s.add("other", "o", {"text": "x"})
            r = go(d, "--index", v)
            expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
            judge(s, v.lower(), rows, None, (), None, f"{it}", before=("old",))
            expect(len(s.idx["other"]) == 1, f"{it}: another index was changed")
            for bulk in (1, 2, 500):
                s, es = fakees.new()
                s.add(v.lower(), "id1", {"text": "what was there before"})
                r = go(d, "--index", v, "--id-field", "id", "--bulk-docs", bulk)
                expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
                have = {x.id: x.src for x in s.idx[v.lower()]}
                expect(have["id1"] == {"text": "what was there before"}, f"{it}: a document that was in the index has become {have['id1']}")
                judge(s, v.lower(), rows, "id", (), None, f"{it}", before=("id1",))
        else:
            d, names, rows = setup([tuple(i % len(DOCS) for i in range(v)), (0,)])
            s, es = fakees.new()
            r = go(d, "--index", "i")
            expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
            judge(s, "i", rows, None, (), None, f"{it}")
    return items, fn


def run(c):
    fakees.install()
    fakees.install_h5()
    deep = c.thorough
    c.part("contents x options", *contents(3 if not deep else 4), budget=60 if not deep else 400)
    c.part("saved ids", *saved_ids())
    c.part("saved ids, documents there already", *saved_again())
    c.part("names and ways to store the files", *layouts())
    c.part("long ids", *long_ids())
    c.part("interrupted attempts", *interrupted(2 if not deep else 3), budget=60 if not deep else 300)
    c.part("rejected documents", *rejected())
    c.part("skip, fields, shards, sizes", *more())
    c.assumptions = ["Elasticsearch and h5py are stand-ins; parallel_bulk applies chunks in either order and yields results in order of the chunks",
                     "documents have the text field; --skip is used on files without empty documents (whether it counts lines or documents is not stated)"]
