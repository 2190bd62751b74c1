"""The store of prompt templates: what was put in is what comes out, after every sequence of operations and every crash."""
import urllib.parse, csv, io, itertools, json, logging, os, re, sys, types
import lib, fsx, fakepd, fakejinja, stubs
from lib import Bad, expect, count, seqs

DATASETS = [("d", None), ("d", "s"), ("e", None), ("craffel/x", "s"), ("d", "s2"), ("craffel/x", None), ("craffel/x", "s2"), ("craffel/y", "s"), ("Zaid/x", None), ("Zaid/x", "s")]


def load(root):
    """The module as a new process sees it, with the store in root."""
    os.makedirs(root, exist_ok=True)
    m = lib.module("wimbd.contamination.templates")
    m.TEMPLATES_FOLDER_PATH = root
    return m


def fields(t):
    md = t.metadata
    return (t.get_name(), t.jinja, t.get_reference(), t.get_answer_choices_expr(), (md.original_task, md.choices_in_prompt, md.metrics, md.languages))


def contents(c, what):
    """{dataset: {name: fields}} of a collection, looked at from every side."""
    out = {}
    ids = set()
    for k in c.keys:
        h = c.get_dataset(*k)
        names = h.all_template_names
        expect(names == sorted(names), f"{what}: names {names}")
        v = {}
        for n in names:
            t = h[n]
            expect(t.get_name() == n, f"{what}: {k}[{n!r}] is {t.get_name()!r}")
            expect(t.get_id() not in ids, f"{what}: id {t.get_id()} twice")
            ids.add(t.get_id())
            v[n] = (t.get_id(), fields(t))
        expect(len(h) == len(v), f"{what}: {k}: length {len(h)}, names {names}")
        if v:
            out[k] = v
    cnt = {}
    for k, v in out.items():
        cnt[k[0]] = cnt.get(k[0], 0) + len(v)
    got = {k: n for k, n in c.get_templates_count().items() if n}
    expect(got == cnt, f"{what}: counts {got}, templates {cnt}")
    return out


def ops(nds):
    out = []
    for d in range(nds) if isinstance(nds, int) else nds:
        out += [("add", d, "A"), ("add", d, "B"), ("remove", d, "A"), ("remove", d, "B"), ("update", d, "A", "C"), ("update", d, "C", "A"), ("update", d, "B", "B")]
    return out


def mdl(state, op):
    """The model: {dataset: {name: version}}; None if the operation is not applicable."""
    k, d = op[0], DATASETS[op[1]]
    s = {x: dict(v) for x, v in state.items()}
    v = s.setdefault(d, {})
    if k == "add":
        if op[2] in v:
            return None         # names are unique
        v[op[2]] = "new"
    elif k == "remove":
        if op[2] not in v:
            return state
        del v[op[2]]
    else:
        if op[2] not in v:
            return state
        if op[3] != op[2] and op[3] in v:
            return None
        del v[op[2]]
        v[op[3]] = "changed"
    return {x: v for x, v in s.items() if v}


def values(m, d, name, version):
    ds = "/".join(x or "-" for x in d)
    return dict(jinja=f"{ds} {version} {{{{text}}}} ||| {{{{x}}}}", reference=f"ref {version}", answer_choices=None if version == "new" else "yes ||| no",
                metadata=m.Template.Metadata(version == "new", None, ["BLEU"], ["en"]) if version != "new" or name == "A" else None)


def want_fields(m, d, name, version):
    v = values(m, d, name, version)
    md = v["metadata"] or m.Template.Metadata()
    return (name, v["jinja"], v["reference"], v["answer_choices"], (md.original_task, md.choices_in_prompt, md.metrics, md.languages))


def apply(m, c, op, state, handles, what):
    """One operation on the real store."""
    k, d = op[0], DATASETS[op[1]]
    h = handles.get(d) or c.get_dataset(*d)
    there = op[2] in state.get(d, {})
    if k == "add":
        v = values(m, d, op[2], "new")
        r = lib.call(lambda: h.add_template(m.Template(op[2], v["jinja"], v["reference"], v["metadata"], v["answer_choices"])))
        expect(r.exc is None, lambda: f"{what}: {r.trace}")
    elif k == "remove":
        r = lib.call(lambda: h.remove_template(op[2]))
        expect((r.exc is None) == there, lambda: f"{what}: {r.trace or 'removed a template that is not there'}")
    else:
        v = values(m, d, op[3], "changed")
        r = lib.call(lambda: h.update_template(op[2], op[3], v["jinja"], v["reference"], v["metadata"], v["answer_choices"]))
        expect((r.exc is None) == there, lambda: f"{what}: {r.trace or 'changed a template that is not there'}")
    count("runs")


def compare(m, got, state, what):
    g = {d: {n: f for n, (i, f) in v.items()} for d, v in got.items()}
    w = {d: {n: want_fields(m, d, n, x) for n, x in v.items()} for d, v in state.items()}
    expect(g == w, lambda: f"{what}: the store has {({d: sorted(v) for d, v in g.items()})}, should have {({d: sorted(v) for d, v in w.items()})}" + ("" if {d: sorted(v) for d, v in g.items()} != {d: sorted(v) for d, v in w.items()} else f" {g} {w}"))


def sequences(nds, depth):
    """mode 0: one collection; 1: reopened before every operation; 2: handles taken at the start; 3: a handle per dataset taken twice"""
    OPS = ops(nds)

    def items():
        for mode in (0, 1, 2, 3):
            for s in seqs(OPS, depth, depth):
                st = {}
                for o in s:
                    st = mdl(st, o)
                    if st is None:
                        break
                if st is not None and all(o[0] == "add" for o in s[:1]):
                    yield mode, s

    def fn(it):
        mode, s = it
        root = os.path.join(lib.scratch(), "t")
        m = load(root)
        c = m.TemplateCollection()
        handles = {}
        if mode in (2, 3):
            for o in s:
                handles.setdefault(DATASETS[o[1]], c.get_dataset(*DATASETS[o[1]]))
                if mode == 3:
                    c.get_dataset(*DATASETS[o[1]])
        st = {}
        ids = {}
        for i, o in enumerate(s):
            what = f"operations {s[:i + 1]}, mode {mode}"
            if mode == 1:
                m = load(root)
                c = m.TemplateCollection()
            if mode == 3 and i % 2:
                handles[DATASETS[o[1]]] = c.get_dataset(*DATASETS[o[1]])
            apply(m, c, o, st, handles, what)
            st = mdl(st, o)
            mine = contents(c, what)
            compare(m, mine, st, what + ", seen by the collection")
            f = load(root).TemplateCollection()
            if i == len(s) - 1 or mode == 1:
                new = contents(f, what)
                compare(m, new, st, what + ", read from the files")
                expect({d: {n: x[0] for n, x in v.items()} for d, v in new.items()} == {d: {n: x[0] for n, x in v.items()} for d, v in mine.items()}, f"{what}: ids changed by saving")
                expect(set(k for k in f.keys) == set(st), f"{what}: datasets {f.keys}, should be {sorted(map(str, st))}")
            if o[0] == "update" and o[2] in ids.get(DATASETS[o[1]], {}):
                expect(mine[DATASETS[o[1]]][o[3]][0] == ids[DATASETS[o[1]]][o[2]], f"{what}: the id changed")
            ids = {d: {n: x[0] for n, x in v.items()} for d, v in mine.items()}
        count("nontrivial", int(len(st) > 0))
    return items, fn


def populations(n):
    """Every set of datasets of the first n: written, reopened, one of them emptied, reopened."""
    def items():
        for mask in range(1, 1 << n):
            yield mask

    def fn(mask):
        root = os.path.join(lib.scratch(), "t")
        m = load(root)
        ds = [d for i, d in enumerate(DATASETS[:n]) if mask >> i & 1]
        st = {}
        for j, d in enumerate(ds):
            for name in "AB"[: 1 + j % 2]:
                o = ("add", DATASETS.index(d), name)
                apply(m, m.TemplateCollection(), o, st, {}, f"{ds}")
                st = mdl(st, o)
        for k in range(min(len(ds), 3) + 1):
            m = load(root)
            c = m.TemplateCollection()
            what = f"datasets {sorted(map(str, st))}, reopened"
            expect(set(c.keys) == set(st) and len(c) == len(st), f"{what}: datasets {c.keys}")
            compare(m, contents(c, what), st, what)
            if k < len(ds):
                for name in sorted(st[ds[k]]):
                    o = ("remove", DATASETS.index(ds[k]), name)
                    apply(m, c, o, st, {}, what)
                    st = mdl(st, o)
        count("nontrivial", int(len(ds) > 1))
    return items, fn


def crashes(nds, depth):
    """Killed in the middle of an operation: the store is as before or as after it."""
    OPS = ops(nds)

    def items():
        seen = {json.dumps({}): ()}
        frontier = [({}, ())]
        yield ()
        for k in range(depth):
            nxt = []
            for st, path in frontier:
                for o in OPS:
                    s2 = mdl(st, o)
                    if s2 is None:
                        continue
                    key = json.dumps({str(k): v for k, v in s2.items()}, sort_keys=True)
                    if key not in seen:
                        seen[key] = path + (o,)
                        nxt.append((s2, path + (o,)))
                        yield path + (o,)
            frontier = nxt

    def fn(path):
        root = os.path.join(lib.scratch(), "t")
        m = load(root)
        c = m.TemplateCollection()
        st = {}
        for o in path:
            apply(m, c, o, st, {}, f"{path}")
            st = mdl(st, o)
        start = tuple((k, v) for k, v in sorted(lib.snapshot(root).items()))
        for o in OPS:
            after = mdl(st, o)
            if after is None or after == st and o[0] != "update":
                continue
            what = f"after {path}: {o}"
            box = {}

            def program():
                m2 = load(root)
                apply(m2, m2.TemplateCollection(), o, st, {}, what)

            states = fsx.explore(root, start, program, lambda r, snap: None)
            for i, x in enumerate(states):
                fsx.materialize(root, x)
                w = f"{what}, killed with {[(n, len(b)) for n, b in x if b is not None]} on disk"
                r = lib.call(lambda: contents(load(root).TemplateCollection(), w))
                expect(r.exc is None or isinstance(r.exc, Bad), lambda: f"{w}: cannot be read: {r.trace}")
                if r.exc:
                    raise r.exc
                g = {d: {n: f for n, (_, f) in v.items()} for d, v in r.ns.items()}
                ok = [{d: {n: want_fields(m, d, n, y) for n, y in v.items()} for d, v in s.items()} for s in (st, after)]
                expect(g in ok, lambda: f"{w}: the store has {({d: sorted(v) for d, v in g.items()})}, before {st}, after {after}")
                # and work can go on
                m2 = load(root)
                c2 = m2.TemplateCollection()
                s2 = st if g == ok[0] else after
                for d in range(nds):
                    o2 = ("add", d, "Z")
                    apply(m2, c2, o2, s2, {}, w)
                    s2 = mdl(s2, o2)
                compare(m2, contents(load(root).TemplateCollection(), w), s2, w + ", after adding")
            count("crash_states", len(states))
            count("nontrivial")
    return items, fn


STR = ["", "a", "yes", "null", "1", "1.5", "a: b", "- x", "'", '"', "a\nb", "a\n", "\n", " a ", "\ta", "# c", "{{x}}", "{% if x %}y{% endif %}", "\u00e9", "\u2028", "\x85", "\x00", "\x7f", "\U0001f600", "\ufeff", "!Template", "&a", "*a", "%x", "a" * 300 + " " + "b" * 300, "a\r\nb", "|||", "~", "2001-01-01", "=", "<<", "\\n"]


def roundtrip():
    def items():
        for s in STR:
            for where in range(4):
                yield s, where

    def fn(it):
        s, where = it
        root = os.path.join(lib.scratch(), "t")
        for md in ((None, None, None, None), (True, False, ["BLEU", "Other"], ["en", "de"]), (False, True, [], [s])):
            m = load(root)
            for d in DATASETS[:2]:
                h = m.DatasetTemplates(*d)
                v = ["n", "j", "r", "c"]
                v[where] = s
                for other in ("keep", "me"):
                    if other not in h.all_template_names and other != s:
                        h.add_template(m.Template(other, "x", "y"))
                t = m.Template(v[0], v[1], v[2], m.Template.Metadata(*md), v[3])
                h.add_template(t)
                g = load(root).DatasetTemplates(*d)
                count("runs")
                what = f"{v} in {d}"
                expect(g.all_template_names == h.all_template_names and len(g) == 3, f"{what}: names {g.all_template_names}, were {h.all_template_names}")
                u = g[v[0]]
                expect(fields(u) == (v[0], v[1], v[2], v[3], md) and u.get_id() == t.get_id(), f"{what}: read back as {fields(u)} {u.get_id()}")
                h.remove_template(v[0])
                expect(load(root).DatasetTemplates(*d).all_template_names == ["keep", "me"], f"{what}: not removed")
    return items, fn


def frames():
    """get_templates_data_frame: a row for every template."""
    def items():
        for n in itertools.product(range(3), repeat=4):
            yield n

    def fn(n):
        root = os.path.join(lib.scratch(), "t")
        m = load(root)
        want = []
        for d, k in zip((DATASETS[0], DATASETS[1], DATASETS[2], DATASETS[3]), n):
            for i in range(k):
                h = m.DatasetTemplates(*d)
                v = values(m, d, "AB"[i], "new")
                h.add_template(m.Template("AB"[i], v["jinja"], v["reference"], v["metadata"], v["answer_choices"]))
                want.append((d[0], d[1], *want_fields(m, d, "AB"[i], "new")))
        m = load(root)
        saved = sys.modules["pandas"]
        df = m.get_templates_data_frame()
        count("runs")
        rows = df.to_dict("records")
        got = [(r["dataset"], r["subset"], r["name"], r["jinja"], r["reference"], r["answer_choices"], (r["original_task"], r["choices_in_prompt"], r["metrics"], r["languages"])) for r in rows]
        expect(sorted(map(repr, got)) == sorted(map(repr, want)), f"{n}: rows {got}, should be {want}")
        expect(len({r["id"] for r in rows}) == len(rows), f"{n}: repeated ids")
        count("nontrivial", int(len(rows) > 1))
    return items, fn


VALS = ["", "v", "a|||b", "|||", "x ||| y", "a || b", " s ", "l1\nl2", "{{b}}", "3ed2", "\u00e9\u2028", 7, None, ["p", "q"]]
SEGS = ["T ", "{{a}}", "{{b}}", " \n|||\n ", "{{answer_choices[0]}}", "{{ a }} and {{b}}"]
CHO = [None, "yes ||| no", "{{a}} ||| {{b}}", "{{ l | join(' ||| ') }}", "one"]


def votes():
    """The filter for the most frequent items in a template: all of them, whatever their order."""
    def items():
        yield from seqs("abc", 0, 5)
        yield from ("abcd", "dcbaabcd", "aabbccdd", "abcdabcde")

    def fn(s):
        m = load(os.path.join(lib.scratch(), "t"))
        t = m.Template("n", "{{ l | most_frequent | join(',') }} ||| x", "r")
        if not s:
            return
        top = max(s.count(x) for x in s)
        want = [x for x in dict.fromkeys(s) if s.count(x) == top]
        r = lib.call(lambda: t.apply({"l": list(s)}))
        count("runs")
        expect(r.exc is None and sorted(r.ns[0].split(",")) == sorted(want) and r.ns[1:] == ["x"], lambda: f"{s}: {r.ns}, should be {want} {r.trace}")
        count("nontrivial", int(len(want) > 1))
    return items, fn


def applying(n):
    def items():
        for s in seqs(range(len(SEGS)), 1, n):
            yield s

    def fn(s):
        m = load(os.path.join(lib.scratch(), "t"))
        src = "".join(SEGS[i] for i in s)
        for a, b in itertools.product(VALS, VALS[:5] if len(s) > 2 else VALS):
            for ch in CHO:
                if len(s) > 2 and ch == "one":
                    continue
                t = m.Template("n", src, "r", answer_choices=ch)
                ex = {"a": a, "b": b, "l": ["c0", "c1"]}
                keep = json.dumps(ex)
                choices = None if ch is None else {"yes ||| no": ["yes", "no"], "one": ["one"], "{{a}} ||| {{b}}": [str(a).strip(), str(b).strip()], "{{ l | join(' ||| ') }}": ["c0", "c1"]}[ch]
                r = lib.call(lambda: t.get_answer_choices_list(ex))
                what = f"template {src!r}, choices {ch!r}, example {ex}"
                expect(r.exc is None and r.ns == choices, lambda: f"{what}: choices {r.ns}, should be {choices} {r.trace}")
                r = lib.call(lambda: t.get_fixed_answer_choices_list())
                fixed = choices if ch in (None, "yes ||| no", "one") else None
                expect(r.exc is None and r.ns == fixed, lambda: f"{what}: fixed choices {r.ns}, should be {fixed} {r.trace}")
                if ch is None and 4 in s:
                    continue
                want = [""]
                for i in s:
                    for piece in re.split(r"(\{\{.*?\}\}|\|\|\|)", SEGS[i]):
                        if piece == "|||":
                            want.append("")
                        elif piece.startswith("{{"):
                            e = piece[2:-2].strip()
                            want[-1] += str(choices[0] if e.startswith("answer") else ex[e])
                        else:
                            want[-1] += piece
                want = [w.strip() for w in want]
                for trunc in (True, False):
                    r = lib.call(lambda: t.apply(ex, truncate=trunc))
                    count("runs")
                    if any(isinstance(x, str) and "|||" in x for x in (choices or [])) and 4 in s:
                        # a choice rendered into the prompt has been unescaped already
                        continue
                    expect(r.exc is None and r.ns == want, lambda: f"{what}, truncate {trunc}: {r.ns}, should be {want} {r.trace}")
                expect(json.dumps(ex) == keep, f"{what}: the example was changed to {ex}")
        count("nontrivial")
    return items, fn


def lengths():
    def items():
        for k in (1, 2000, 2040, 2047, 2048, 2049, 2052, 2053, 2054, 2055, 3000):
            for sp in (0, 7, 300):
                yield k, sp

    def fn(it):
        k, sp = it
        m = load(os.path.join(lib.scratch(), "t"))
        v = "".join(" " if sp and i % sp == sp - 1 else "x" for i in range(k))
        t = m.Template("n", "A {{a}} B ||| {{b}}", "r")
        full = lib.call(lambda: t.apply({"a": v, "b": v}, truncate=False))
        cut = lib.call(lambda: t.apply({"a": v, "b": v}))
        count("runs", 2)
        expect(full.ns == [f"A {v} B", v.strip()], lambda: f"{it}: not truncated: {full.ns!r:.200} {full.trace}")
        p, o = cut.ns if cut.exc is None and len(cut.ns) == 2 else (None, None)
        expect(p is not None and p.startswith("A ") and p.endswith(" B"), lambda: f"{it}: {cut.ns!r:.300} {cut.trace}")
        for w in (p[2:-2], o):
            if k <= 2048:
                expect(w.strip() == v.strip(), f"{it}: truncated although short: {len(w)}")
            else:
                expect(w.strip() == v.strip() and k <= 2053 or w.endswith("...") and len(w) <= 2048 and v.startswith(w[:-3]) and (sp or len(w) == 2048), f"{it}: {len(w)} characters")
        r = lib.call(lambda: t.apply({"a": "x", "answer_choices": "y"}))
        expect(isinstance(r.exc, ValueError), f"{it}: the reserved key was accepted")
        r = lib.call(lambda: t.apply({"a": "x", "b": "y"}, highlight_variables=True))
        expect(r.exc is None and r.ns == ["A <span style='color: #F08080'>x</span> B", "<span style='color: #F08080'>y</span>"], f"highlight: {r.ns} {r.trace}")
        expect(m.most_frequent(["a", "b", "a", "c", "b"]) == ["a", "b"] and m.most_frequent([]) is None, "most_frequent")
    return items, fn


# ---- utils ------------------------------------------------------------------------------------------------------
def english():
    """filter_english_datasets: every page once."""
    CARDS = [{"cardData": {"language": ["en"]}}, {"cardData": {"language": ["de", "en-US"]}}, {"cardData": {"language": ["de"]}}, {"cardData": {}}, {}]

    def items():
        for k in range(0, 5):
            for c in itertools.product(range(5), repeat=k):
                yield c
        yield tuple(i % 5 for i in range(60))

    def fn(c):
        ids = ["b", "A", "user/x", "c", "a"]
        data = [{"id": ids[i % 5] + (str(i) if i > 4 else ""), **CARDS[x]} for i, x in enumerate(c)]
        for size in (1, 2, 3, 100):
            pages = [data[i:i + size] for i in range(0, len(data), size)] or [[]]
            asked = []

            def get(url, params=None, **k):
                if params:
                    url += "?" + urllib.parse.urlencode(params)
                n = 0 if url.endswith("?full=true") else int(url.rsplit("=", 1)[1])
                asked.append(n)
                return types.SimpleNamespace(status_code=200, ok=True, json=lambda: [dict(x) for x in pages[n]], raise_for_status=lambda: None,
                                             links={"next": {"url": f"https://huggingface.co/api/datasets?full=true&cursor={n + 1}"}} if n + 1 < len(pages) else {})
            old = sys.modules["requests"]
            sys.modules["requests"] = stubs.mod("requests", get=get, **stubs.sessions(get), exceptions=old.exceptions, HTTPError=old.HTTPError, RequestException=old.RequestException)
            sys.modules["datasets"] = stubs.mod("datasets")
            try:
                m = lib.module("wimbd.contamination.utils")
                want = sorted(d["id"] for d, x in zip(data, c) if x < 2)
                r = lib.call(m.filter_english_datasets)
                count("runs")
                expect(r.exc is None and r.ns == want, lambda: f"{c}, pages of {size}: {r.ns}, should be {want} {r.trace}")
                expect(asked == list(range(len(pages))), f"{c}, pages of {size}: asked for {asked}")
                r = lib.call(m.list_datasets)
                expect(r.exc is None and r.ns == sorted(want, key=lambda x: x.lower()), lambda: f"{c}: {r.ns} {r.trace}")
            finally:
                sys.modules["requests"] = old
        count("nontrivial", int(bool(want)))
    return items, fn


def columns():
    KEYS = ["a", "a-b", "a_c", "-", "x-y-z", "b--"]

    def items():
        for k in range(len(KEYS) + 1):
            yield from itertools.permutations(KEYS, k) if k < 4 else itertools.combinations(KEYS, k)

    def fn(ks):
        class Ds:
            def __init__(self, cols):
                self.column_names = list(cols)

            def rename_column(self, a, b):
                expect(a in self.column_names, f"{ks}: column {a} does not exist")
                expect(b not in self.column_names, f"{ks}: column {b} exists")
                return Ds([b if x == a else x for x in self.column_names])

            def rename_columns(self, mapping):
                d = self
                for a, b in mapping.items():
                    d = d.rename_column(a, b)
                return d
        sys.modules["datasets"] = stubs.mod("datasets")
        m = lib.module("wimbd.contamination.utils")
        want = [k.replace("-", "_") for k in ks]
        ex = {k: i for i, k in enumerate(ks)}
        r = lib.call(lambda: m.removeHyphen(ex))
        expect(r.exc is None and list(r.ns.items()) == [(w, i) for i, w in enumerate(want)] and list(ex) == list(ks), lambda: f"{ks}: {r.ns} {r.trace}")
        r = lib.call(lambda: m.renameDatasetColumn(Ds(ks)))
        expect(r.exc is None and r.ns.column_names == want, lambda: f"{ks}: {r.ns and r.ns.column_names} {r.trace}")
        count("runs", 2)
    return items, fn


def parse():
    """promptsource_parse.py: one line per dataset, with the fields of one of its templates."""
    def items():
        for n in itertools.product(range(3), repeat=4):
            yield n

    def fn(n):
        d = lib.scratch()
        # the program takes the names from fixed positions in an absolute path
        comps = d.strip("/").split("/")
        root = os.path.join(d, *["p"] * (7 - len(comps)))
        os.makedirs(root, exist_ok=True)
        if len(comps) > 6:
            raise lib.Unmodelled("scratch directory too deep")
        m = load(root)
        J = ["{{ text }} ||| {{label}}", "{{a_b}}{{ c-d }} {{ x | lower }} {{ l[0] }} none"]
        F = [["text", "label"], ["a_b", "c-d"]]
        want = {}
        for k, ds in zip(n, DATASETS[:4]):
            for i in range(k):
                m.DatasetTemplates(*ds).add_template(m.Template(f"t{i}", J[i], "r"))
            if k:
                a = (ds[0], ds[1] or "") if "/" not in ds[0] else None
                if a:
                    want[a] = F[:k]
        lib.AFTER["wimbd.contamination.templates"] = lambda mod: setattr(mod, "TEMPLATES_FOLDER_PATH", root)
        sys.modules["datasets"] = stubs.mod("datasets")
        out = os.path.join(d, "out.tsv")
        if n[3]:
            import shutil
            shutil.rmtree(os.path.join(root, "craffel"), ignore_errors=True)
        try:
            r = lib.script("wimbd/contamination/promptsource_parse.py", ["--path", root, "--out_file", out], cwd=d)
        finally:
            lib.AFTER.clear()
        count("runs")
        expect(r.status == 0, lambda: f"{n}: failed: {r.trace or r.err}")
        rows = list(csv.reader(io.StringIO(lib.get(out)), delimiter="\t"))
        got = {(x[0], x[1]): x[2] for x in rows}
        expect(len(got) == len(rows) and set(got) == set(want), f"{n}: datasets {sorted(got)}, should be {sorted(want)}")
        for k, v in got.items():
            expect(v in [str(f) for f in want[k]], f"{n}: {k}: fields {v}, should be one of {want[k]}")
        count("nontrivial", int(len(want) > 1))
    return items, fn


def run(c):
    sys.modules.update({**fakejinja.modules(), **fakepd.modules()})
    logging.disable(logging.WARNING)
    deep = c.thorough
    c.part("sequences of operations", *sequences(2 if not deep else 3, 3), limit=60, budget=100 if not deep else 500)
    if deep:
        c.part("longer sequences", *sequences(1, 5), limit=60, budget=200)
    c.part("datasets of included users", *sequences((5, 3, 6), 2 if not deep else 3), limit=60, budget=60 if not deep else 300)
    c.part("sets of datasets", *populations(8 if not deep else 10), limit=60, budget=60 if not deep else 200)
    c.part("crashes", *crashes(2 if not deep else 3, 2 if not deep else 3), limit=120, budget=100 if not deep else 500)
    c.part("round trip", *roundtrip())
    c.part("data frame", *frames())
    c.part("applying", *applying(3 if not deep else 4), limit=60)
    c.part("most frequent items", *votes())
    c.part("lengths", *lengths())
    c.part("pages of datasets", *english())
    c.part("columns", *columns())
    c.part("fields of templates", *parse())
    c.assumptions = ["one program at a time uses the store, through one collection", "template names are unique within a dataset; separators in templates do not touch the characters '|' of values",
                     "jinja2 and pandas are stand-ins; real PyYAML"]
