"""Preparing The Stack and mC4: every file listed, every document kept exactly once, whatever interrupts the programs."""
import hashlib, gzip, itertools, json, os, re, sys
import lib, fsx, fakepd, stubs
from lib import Bad, expect, count, seqs

BASE = "https://huggingface.co/datasets/bigcode/the-stack/resolve/"


class Mods:
    """Modules the program of the moment sees."""

    def __init__(self, m):
        self.m = m

    def __enter__(self):
        self.saved = {k: sys.modules.get(k) for k in self.m}
        sys.modules.update(self.m)

    def __exit__(self, *a):
        for k, v in self.saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# ---- The Stack: list of urls -------------------------------------------------------------------------------------
def norm(l):
    return l.lower().replace(" ", "-").replace("#", "-sharp")


def web(langs, version, hook=None):
    files = {f"{BASE}{version}/programming-languages.json": json.dumps({l: [f".{i}"] for i, (l, n) in enumerate(langs)}).encode()}
    want = []
    for l, n in langs:
        for i in range(n):
            u = f"{BASE}{version}/data/{norm(l)}/train-{i:05d}-of-{n:05d}.parquet"
            files[u] = b""
            want.append(u)
    return fakepd.Https(files, hook), want


def list_urls(d, fs, version):
    with Mods(fakepd.fsspec(fs)):
        r = lib.script("preparation/stack/get_urls.py", ["--output-file", "urls.txt", *([] if version == "v1.1" else ["--version", version])], cwd=d, env={"HF_TOKEN": "T"})
    count("runs")
    return r


NAMES = ["Python", "C#", "Common Lisp", "c", "C++", "1c-enterprise"]


def stops(nmax, times):
    """Interrupted by the keyboard at any request, several times; then to the end; then once more."""
    def items():
        for k in range(1, nmax + 1):
            for ns in itertools.product((1, 2, 3), repeat=k):
                yield ns
        yield (1, 12, 3)
        yield (101, 1, 99)

    def fn(ns):
        langs = list(zip(NAMES, ns))
        for version in ("v1.1", "v1.2"):
            total = [0]
            fs, want = web(langs, version, lambda what, u: total.__setitem__(0, total[0] + 1))
            d = lib.scratch()
            r = list_urls(d, fs, version)
            expect(r.status == 0, lambda: f"{ns}: failed: {r.trace or r.err}")
            expect((lib.get(os.path.join(d, "urls.txt")) or "").split("\n")[:-1] == want, f"{ns} {version}: listed {lib.get(os.path.join(d, 'urls.txt'))}")
            r = list_urls(d, fs, version)
            expect(r.status == 0 and lib.get(os.path.join(d, "urls.txt")).split("\n")[:-1] == want, f"{ns}: listed once more: {lib.get(os.path.join(d, 'urls.txt'))}")
            n = total[0] // 2
            pts = range(1, n + 1) if n < 30 else (1, 2, 3, n // 2, n - 1)
            for cuts in itertools.product(pts, repeat=times if n < 12 else 1):
                d = lib.scratch()
                st = {"n": 0, "cut": None}

                def hook(what, u):
                    if what == "exists":
                        st["n"] += 1
                        if st["n"] == st["cut"]:
                            raise KeyboardInterrupt()
                fs, want = web(langs, version, hook)
                for c in cuts:
                    st["n"], st["cut"] = 0, c
                    list_urls(d, fs, version)
                    got = (lib.get(os.path.join(d, "urls.txt")) or "").split("\n")[:-1]
                    whole = [len(want[:j]) for j in range(len(want) + 1) if j == len(want) or j == 0 or want[j].split("/")[-2] != want[j - 1].split("/")[-2]]
                    expect(got == want[:len(got)] and len(got) in whole, f"{ns}: interrupted at requests {cuts}: the list has {got}")
                st["cut"] = None
                r = list_urls(d, fs, version)
                expect(r.status == 0, lambda: f"{ns}: interrupted at requests {cuts}: failed: {r.trace or r.err}")
                got = lib.get(os.path.join(d, "urls.txt")).split("\n")[:-1]
                expect(got == want, f"{ns}, interrupted at requests {cuts}: listed {got}, should be {want}")
                count("nontrivial")
    return items, fn


def crash_loop(root, program, final, restarts, cap=10 ** 9):
    """Every state of the directory at a crash, and the same again after starting there, `restarts` times; each run to its end is judged."""
    known, frontier = {()}, [()]
    for depth in range(restarts + 1):
        nxt = []
        for start in frontier:
            for s in fsx.explore(root, start, program, lambda r, snap: final(r, snap, start)):
                if s not in known:
                    known.add(s)
                    nxt.append(s)
        frontier = nxt[::max(1, -(-len(nxt) // cap))]
    count("crash_states", len(known))
    count("nontrivial", int(len(known) > 2))


def url_crashes():
    def items():
        for k in (1, 2, 3):
            for ns in itertools.product((1, 2, 3), repeat=k):
                yield ns
        yield (120,)
        yield (60, 60, 60)

    def fn(ns):
        langs = list(zip(NAMES, ns))
        fs, want = web(langs, "v1.1")
        root = os.path.join(lib.scratch(), "w")

        def final(r, snap, start):
            what = f"{ns}, started with {[(n, len(b)) for n, b in start if b is not None]}"
            expect(r.status == 0, lambda: f"{what}: failed: {r.trace or r.err}")
            got = dict(snap).get("urls.txt", b"").decode().split("\n")[:-1]
            expect(got == want, f"{what}: listed {len(got)} urls {got!r:.600}, should be {len(want)}")
        crash_loop(root, lambda: list_urls(root, fs, "v1.1"), final, 2, 60)
    return items, fn


# ---- The Stack: downloading -------------------------------------------------------------------------------------
COLS = ["hexsha", "size", "lang", "content", "max_stars_count", "avg_line_length"]
ROWS = [{"hexsha": "h0", "size": 3, "lang": "Common Lisp", "content": "(a)\n", "max_stars_count": None, "avg_line_length": 3.5},
        {"hexsha": "h1", "size": 0, "lang": "C", "content": "", "max_stars_count": 7, "avg_line_length": 0.0},
        {"hexsha": "h2", "size": 9, "lang": "C#", "content": "/* \u00e9\u2028\U0001f600 \"\\ */\r\n\ttext lang id", "max_stars_count": 1, "avg_line_length": 9.25},
        {"hexsha": "h0", "size": 3, "lang": "PYTHON", "content": "(a)\n", "max_stars_count": 2, "avg_line_length": 3.5}]
WHERE = [("python", "train-00000-of-00001"), ("common-lisp", "train-00003-of-00012"), ("c-sharp", "data.parquet-00")]


def want_rows(rows):
    out = []
    for r in rows:
        out.append({"id": r["hexsha"], "text": r["content"], "lang": r["lang"].lower().replace(" ", "-"), "source": "stack-v1.2", "timestamp": "2023-03-16T00:00:00",
                    "metadata": {c: r[c] for c in COLS if c not in ("hexsha", "content", "lang")}})
    return out


def judge_rows(data, rows, what):
    try:
        text = gzip.decompress(data).decode()
        got = [json.loads(l) for l in text.split("\n") if l]
    except Exception as e:
        raise Bad(f"{what}: the file cannot be read: {e!r}")
    for g in got:
        expect(isinstance(g.pop("added", None), str), f"{what}: {g}")
    expect(got == want_rows(rows), f"{what}: documents {got!r:.1500}, should be {want_rows(rows)!r:.1500}")


def downloads():
    def items():
        for rows in seqs(range(4), 0, 2):
            for w in range(2):
                yield rows, w
        yield (0, 1, 2, 3, 0, 2), 1
        yield (2,) * 400, 0

    def fn(it):
        rows, w = it
        lang, name = WHERE[w]
        data = [{**ROWS[i], "hexsha": f"{ROWS[i]['hexsha']}-{j}"} for j, i in enumerate(rows)]
        url = f"{BASE}v1.2/data/{lang}/{name}.parquet"
        fs = fakepd.Https({url: fakepd.parquet(data, COLS)})
        root = os.path.join(lib.scratch(), "w")
        mods = Mods({**fakepd.fsspec(fs), **fakepd.modules()})

        def program():
            with mods:
                r = lib.script("preparation/stack/download_url.py", [url, "out"], cwd=root, env={"HF_TOKEN": "T"})
            count("runs")
            return r

        def final(r, snap, start):
            what = f"{data!r:.300}, started with {[(n, len(b)) for n, b in start if b is not None]}"
            expect(r.status == 0, lambda: f"{what}: failed: {r.trace or r.err}")
            f = {n: b for n, b in snap if b is not None}
            mine = f"out/{lang}/{name}.jsonl.gz"
            expect([n for n in f if n.endswith(".jsonl.gz")] == [mine], f"{what}: files {sorted(f)}")
            judge_rows(f[mine], data, what)
        crash_loop(root, program, final, 2, 30)
    return items, fn


def missing():
    """A download that fails leaves nothing that a later attempt would take for the finished file."""
    def items():
        for k in ("404", "garbage", "no text", "no id", "token"):
            yield k

    def fn(k):
        lang, name = WHERE[0]
        url = f"{BASE}v1.2/data/{lang}/{name}.parquet"
        cols = [c for c in COLS if not (k == "no text" and c == "content" or k == "no id" and c == "hexsha")]
        fs = fakepd.Https({} if k == "404" else {url: b"<html>" if k == "garbage" else fakepd.parquet([{c: ROWS[0][c] for c in cols}], cols)})
        d = lib.scratch()
        with Mods({**fakepd.fsspec(fs), **fakepd.modules()}):
            r = lib.script("preparation/stack/download_url.py", [url, "out"], cwd=d, env={"HF_TOKEN": "wrong" if k == "token" else "T"})
        expect(r.status != 0, f"{k}: reported success")
        left = {n: b for n, b in lib.snapshot(d).items() if n.endswith(".jsonl.gz") and b}
        expect(not left, f"{k}: left {left}")
        fs.files[url] = fakepd.parquet(ROWS, COLS)
        with Mods({**fakepd.fsspec(fs), **fakepd.modules()}):
            r = lib.script("preparation/stack/download_url.py", [url, "out"], cwd=d, env={"HF_TOKEN": "T"})
        expect(r.status == 0, lambda: f"{k}, then a good download: {r.trace or r.err}")
        judge_rows(lib.snapshot(d)[f"out/{lang}/{name}.jsonl.gz"], ROWS, k)
        count("runs", 2)
    return items, fn


def shells():
    """download.sh and download_url.sh: every url of the list whose file is not there yet."""
    def items():
        for n in (1, 2, 3):
            for st in itertools.product(("none", "empty", "done"), repeat=n):
                yield st

    def fn(st):
        d = lib.scratch()
        log = os.path.join(d, "log")
        tools = os.path.join(d, "tools")
        os.mkdir(tools)
        # `python` of the script: records the call and does what download_url.py does, as seen from outside
        lib.put(os.path.join(tools, "python"), "#!/bin/bash\necho \"$@\" >> " + log + "\nu=$2; o=$3/$(basename $(dirname $u)); f=$(basename $u); f=$o/${f%%.parquet*}.jsonl.gz\n"
                "[ -s $f ] && exit 0\nmkdir -p $o\necho new > $f\n")
        os.chmod(os.path.join(tools, "python"), 0o755)
        out = os.path.join(d, "out")
        urls = []
        for i, s in enumerate(st):
            lang = ("python", "c-sharp", "c")[i]
            urls.append(f"{BASE}v1.1/data/{lang}/train-{i:05d}-of-00003.parquet")
            p = os.path.join(out, lang, f"train-{i:05d}-of-00003.jsonl.gz")
            if s != "none":
                os.makedirs(os.path.dirname(p))
                lib.put(p, "old\n" if s == "done" else "")
        lst = lib.put(os.path.join(d, "urls.txt"), "".join(u + "\n" for u in urls))
        cwd = os.path.join(lib.REPO, "preparation/stack")
        env = {"PATH": tools + ":" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "HF_TOKEN": "T"}
        for again in range(2):
            s, o, e = lib.shell(["bash", "download.sh", lst, out], cwd, env=env)
            count("runs")
            files = {k: v for k, v in lib.snapshot(out).items() if v is not None} if os.path.isdir(out) else {}
            for i, (x, u) in enumerate(zip(st, urls)):
                lang = u.split("/")[-2]
                v = files.pop(f"{lang}/train-{i:05d}-of-00003.jsonl.gz", None)
                expect(v == (b"old\n" if x == "done" else b"new\n"), f"{st}: file of {u} contains {v}; {e!r:.300}")
            expect(not files, f"{st}: files {files}")
        calls = (lib.get(log) or "").split("\n")[:-1]
        for i, (x, u) in enumerate(zip(st, urls)):
            expect(sum(u in c for c in calls) == 1 or x == "done" and sum(u in c for c in calls) <= 2, f"{st}: downloads {calls}")
        count("nontrivial")
    return items, fn


# ---- mC4 ---------------------------------------------------------------------------------------------------------
def combine(nmax):
    def items():
        for n in range(nmax + 1):
            yield (("c4-af", n),), "in", "out"
        for a in (1, 3, 4, 5):
            for b in (1, 4, 6):
                yield (("c4-af", a), ("c4-bg-Latn", b)), "in", "out/"
                yield (("c4-af", a), ("c4-af-validation", b), ("c4-a", 2)), "x/in/", ""

    def fn(it):
        langs, inp, out = it
        want = {}
        names = []
        for l, n in langs:
            for i in range(n):
                names.append((l, i))
        runs = None
        for cut in itertools.count():
            st = fakepd.Store()
            for l, i in names:
                st.blobs["b", inp.rstrip("/") + f"/{l}.{i:05d}.json.gz"] = lib.gz(f"{l} {i} {hashlib.sha512(str(i).encode()).hexdigest()[: i * 37 % 101]}\n")
            st.blobs["b", inp.rstrip("/") + "/README.txt"] = b"x"
            before = dict(st.blobs)
            for step in ((cut, None) if cut else (None, None)):
                st.fail_at = None if step is None else step - 1
                st.writes = []
                with Mods(st.modules()):
                    r = lib.script("preparation/mc4/combine_adjacent_files.py", [f"gs://b/{inp}", f"gs://b/{out}"])
                count("runs")
                expect((r.status == 0) == (step is None) or r.status == 0, lambda: f"{it}, connection lost at write {cut}: {r.trace or r.err}")
                if not cut and runs is None:
                    runs = len(st.writes)
            what = f"{it}, connection lost at write {cut}"
            expect(all(st.blobs.get(k) == v for k, v in before.items()), f"{what}: input files were changed")
            new = {k[1]: v for k, v in st.blobs.items() if k not in before}
            got = []
            for n, v in sorted(new.items()):
                base = n.rsplit("/", 1)[-1]
                expect(not out or n.startswith(out.rstrip("/") + "/"), f"{what}: wrote {n}")
                rows = [r.rsplit(" ", 1)[0] for r in gzip.decompress(v).decode().split("\n")[:-1]]
                l = base.split(".")[0]
                expect(1 <= len(rows) <= 4, f"{what}: {n} contains {rows}")
                expect(all(r.split(" ")[0] == l for r in rows), f"{what}: {n} contains {rows}")
                expect(base == l + "." + "-".join(f"{int(r.split(' ')[1]):05}" for r in rows) + ".json.gz", f"{what}: {n} contains {rows}")
                nums = [int(r.split(" ")[1]) for r in rows]
                expect(nums[0] % 4 == 0 and nums == list(range(nums[0], nums[0] + len(rows))), f"{what}: {n} contains {rows}: not adjacent files in order")
                got += rows
            expect(sorted(got) == sorted(f"{l} {i}" for l, i in names), f"{what}: merged {sorted(got)}, files {sorted(new)}")
            for l, n in langs:
                expect(sum(n_.rsplit('/', 1)[-1].startswith(l + ".") for n_ in new) == -(-n // 4), f"{what}: {sorted(new)}")
            count("nontrivial", int(len(new) > 1))
            if cut >= runs:
                break
    return items, fn


TEXTS = ["", "a b", "\u00e9\u2028\n\r\x00\U0001f600", "don\u00e2\u20ac\u2122t"]
FILES = [("c4-af.tfrecord-00000-of-00002", "c4-af.00000", {"af"}), ("c4-af.tfrecord-00001-of-00002", "c4-af.00001", {"af"}), ("c4-en-validation.tfrecord-00000-of-00001", "c4-en-validation.00000", {"en"}),
         ("c4-bg-Latn.tfrecord-00007-of-00009", "c4-bg-Latn.00007", {"bg", "bg-Latn"}), ("c4-und-validation.tfrecord-00003-of-00004", "c4-und-validation.00003", {"und"}), ("c4-iw.tfrecord-00000-of-00001", "c4-iw.00000", {"iw"})]


def convert():
    def items():
        for k in range(0, 4):
            for fs in itertools.combinations(range(len(FILES)), k):
                yield fs, "out" if k % 2 else "a/b/"
        yield tuple(range(6)), "out"

    def fn(it):
        fs, out = it
        runs = None
        for cut in itertools.count():
            st = fakepd.Store()
            rows = {}
            for j in fs:
                rows[j] = [{"text": TEXTS[(i + j) % 4], "timestamp": f"2020-01-0{i + 1}T00:00:00Z", "url": f"http://x/{j}/{i}"} for i in range(j)]
                st.blobs["b", "in/" + FILES[j][0]] = fakepd.tfrecords(rows[j])
            st.blobs["b", "in/dataset_info.json"] = b"{}"
            if len(fs) % 2:
                # another folder below the one for the results, with files of the same names
                for j in fs:
                    st.blobs["b", out.rstrip("/") + "/old/" + FILES[j][1] + ".json.gz"] = b"old"
            bm = stubs.mod("bettermap", **{n: (lambda f, xs, *a, **k: map(f, xs)) for n in ("map_per_process", "map_per_thread", "ordered_map_per_process", "ordered_map_per_thread", "map_in_chunks")})
            before = dict(st.blobs)
            d = lib.scratch()
            for step in ((cut, None) if cut else (None, None)):
                st.fail_at = None if step is None else step - 1
                st.writes = []
                with Mods({**st.modules(), **fakepd.tf_modules(), "bettermap": bm}):
                    r = lib.script("preparation/mc4/mc4.py", ["gs://b/in", f"gs://b/{out}"], cwd=d, env={"TMPDIR": d})
                count("runs")
                expect(step is not None or r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
                if not cut and runs is None:
                    runs = len(st.writes)
            what = f"{[FILES[j][0] for j in fs]}, connection lost at write {cut}"
            expect(all(st.blobs.get(k) == v for k, v in before.items()), f"{what}: input files were changed")
            new = {k[1]: v for k, v in st.blobs.items() if k not in before}
            expect(sorted(new) == sorted(out.rstrip("/") + "/" + FILES[j][1] + ".json.gz" for j in fs), f"{what}: files {sorted(new)}")
            for j in fs:
                try:
                    got = [json.loads(l) for l in gzip.decompress(new[out.rstrip("/") + "/" + FILES[j][1] + ".json.gz"]).decode().split("\n") if l]
                except Exception as e:
                    raise Bad(f"{what}: {FILES[j][1]} cannot be read: {e!r}")
                expect(len(got) == len(rows[j]), f"{what}: {FILES[j][1]} has {len(got)} of {len(rows[j])} documents")
                for i, (g, w) in enumerate(zip(got, rows[j])):
                    expect(g["text"] == w["text"].replace("\u00e2\u20ac\u2122", "'") and g["timestamp"] == w["timestamp"] and g["metadata"] == {"url": w["url"]} and g["source"] == "mc4", f"{what}: {g}")
                    expect(len(g["lang"]) == 1 and set(g["lang"]) <= FILES[j][2] and set(g["lang"].values()) == {1.0}, f"{what}: language {g['lang']} in {FILES[j][0]}")
                ids = [g["id"] for g in got]
                expect(ids == [f"{FILES[j][1]}-{i}" for i in range(len(got))], f"{what}: ids {ids}")
            count("nontrivial", int(len(fs) > 1))
            if cut >= runs:
                break
    return items, fn


def run(c):
    deep = c.thorough
    c.part("list of urls: interrupted", *stops(3 if not deep else 4, 2 if not deep else 3), limit=60, budget=60 if not deep else 400)
    c.part("list of urls: crashes", *url_crashes(), limit=60)
    c.part("download: crashes", *downloads(), limit=60)
    c.part("download: failures", *missing())
    c.part("download scripts", *shells())
    c.part("mC4: combined files", *combine(13 if not deep else 70))
    c.part("mC4: converted files", *convert())
    c.assumptions = ["fsspec, pandas, google.cloud.storage, TensorFlow, ftfy and bettermap are stand-ins; an object in the cloud is written as a whole or not at all",
                     "a crash stops the process: what has been written stays, nothing is reordered by the disk"]
