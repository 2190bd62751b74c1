"""A small Elasticsearch: the parts of the client's API the repository uses, with their documented semantics.
An index is a list of documents on shards; every document stands for `weight` equal ones in counts."""
import copy, re, types
import lib, stubs
from lib import Unmodelled


class ApiError(Exception):
    def __init__(self, status, msg):
        super().__init__(f"{status} {msg}")
        self.status_code = status


class BadRequest(ApiError):
    def __init__(self, msg):
        super().__init__(400, msg)


class NotFound(ApiError):
    def __init__(self, msg):
        super().__init__(404, msg)


class ConnectionError_(Exception):
    pass


def analyze(text):
    return re.findall(r"\w+", str(text).lower())


class Doc:
    __slots__ = ("id", "src", "shard", "weight", "tokens")

    def __init__(self, id, src, shard=0, weight=1):
        self.id, self.src, self.shard, self.weight = id, src, shard, weight
        self.tokens = {}

    def toks(self, field):
        if field not in self.tokens:
            v = self.src.get(field)
            self.tokens[field] = [] if v is None else analyze(v)
        return self.tokens[field]


def one(d, what):
    if not isinstance(d, dict) or len(d) != 1:
        raise BadRequest(f"[{what}] malformed query: {d!r}")
    return next(iter(d.items()))


def sloppy(toks, terms, slop):
    """Is there a choice of positions, one per term, all different, with max - min of (position - index) <= slop?"""
    if not terms:
        return False
    pos = [[i for i, t in enumerate(toks) if t == x] for x in terms]
    if not slop:
        return any(toks[i:i + len(terms)] == terms for i in range(len(toks) - len(terms) + 1))

    def go(k, used, lo, hi):
        if k == len(terms):
            return True
        for p in pos[k]:
            if p in used:
                continue
            a, b = (p - k, p - k) if lo is None else (min(lo, p - k), max(hi, p - k))
            if b - a <= slop and go(k + 1, used | {p}, a, b):
                return True
        return False
    return go(0, frozenset(), None, None)


def matches(q, d):
    k, v = one(q, "query")
    if k == "bool":
        known = {"must", "filter", "should", "must_not", "minimum_should_match", "boost"}
        if set(v) - known:
            raise BadRequest(f"[bool] query does not support {sorted(set(v) - known)}")

        def ls(x):
            x = v.get(x) or []
            return x if isinstance(x, list) else [x]
        for c in ls("must") + ls("filter"):
            if not matches(c, d):
                return False
        for c in ls("must_not"):
            if matches(c, d):
                return False
        sh = ls("should")
        n = v.get("minimum_should_match")
        if n is None:
            n = 1 if sh and not ls("must") and not ls("filter") else 0
        if isinstance(n, str):
            if not re.fullmatch(r"\d+", n):
                raise Unmodelled("minimum_should_match " + n)
            n = int(n)
        return sum(matches(c, d) for c in sh) >= n
    if k in ("match_phrase", "match", "term", "terms", "regexp", "prefix", "exists"):
        if k == "exists":
            return d.src.get(v["field"]) is not None
        f, a = one(v, k)
        if k == "terms":
            return any(matches({"term": {f: x}}, d) for x in a)
        opts = a if isinstance(a, dict) else {}
        val = opts.get("query", opts.get("value")) if opts else a
        if val is None:
            raise BadRequest(f"[{k}] no value for {f}")
        if isinstance(val, (list, tuple, dict)):
            raise BadRequest(f"[{k}] unknown token in {val!r}")
        if k == "match_phrase":
            if set(opts) - {"query", "slop"}:
                raise Unmodelled(f"match_phrase {opts}")
            return sloppy(d.toks(f), analyze(val), int(opts.get("slop", 0)))
        if k == "match":
            if set(opts) - {"query", "operator"}:
                raise Unmodelled(f"match {opts}")
            ts = analyze(val)
            return bool(ts) and (all if opts.get("operator", "or").lower() == "and" else any)(t in d.toks(f) for t in ts)
        if k == "term":
            if f == "text":
                return val in d.toks(f)
            x = d.src.get(f)
            return val in x if isinstance(x, list) else x == val
        if k == "regexp":
            if set(opts) - {"value", "case_insensitive", "flags"}:
                raise Unmodelled(f"regexp {opts}")
            return any(re.fullmatch(val, t, re.I if opts.get("case_insensitive") else 0) for t in d.toks(f))
        raise Unmodelled("query " + k)
    if k == "match_all":
        return True
    if k == "match_none":
        return False
    if k == "ids":
        return d.id in v["values"]
    if k == "constant_score":
        return matches(v["filter"], d)
    if k in ("multi_match", "query_string", "simple_query_string", "wildcard", "range", "fuzzy", "intervals", "span_near", "function_score", "dis_max", "match_phrase_prefix", "nested"):
        raise Unmodelled("query " + k)
    raise BadRequest(f"unknown query [{k}]")


BIG = 9223372036854775807


class Server:
    """The state behind clients. between: called before every request (the world may change between requests)."""

    def __init__(self):
        self.idx = {}           # name -> list of Doc
        self.shards = {}        # name -> number of shards
        self.replicas = {}
        self.fields = {}
        self.pits = {}
        self.npit = 0
        self.log = []
        self.between = None
        self.clients = []
        self.fail_after = None  # number of bulk actions that still succeed
        self.status = {}        # id -> status of the bulk action

    def add(self, index, id, src, shard=None, weight=1):
        l = self.idx.setdefault(index, [])
        n = self.shards.setdefault(index, 1)
        self.replicas.setdefault(index, 0)
        l.append(Doc(id, copy.deepcopy(src), (sum(map(ord, id)) if shard is None else shard) % n, weight))

    def names(self, index):
        if index is None or index in ("_all", "*"):
            return sorted(self.idx)
        out = []
        for x in index if isinstance(index, (list, tuple)) else str(index).split(","):
            if x == "*":
                out += sorted(self.idx)
            elif x not in self.idx:
                raise NotFound(f"no such index [{x}]")
            else:
                out.append(x)
        return out

    def docs(self, index, preference=None):
        sh = None
        if preference is not None:
            m = re.fullmatch(r"_shards:(\d+(?:,\d+)*)(?:\|.*)?", preference)
            if m:
                sh = {int(x) for x in m.group(1).split(",")}
            elif preference.startswith("_") and preference not in ("_local",):
                raise Unmodelled("preference " + preference)
        return [d for n in self.names(index) for d in self.idx[n] if sh is None or d.shard in sh]

    def tick(self, what):
        self.log.append(what)
        if self.between:
            self.between(self, what)

    # -- search
    def search(self, query=None, index=None, size=10, from_=0, sort=None, search_after=None, pit=None, preference=None, track_total_hits=None,
               stored_fields=None, source=None, as_int=False):
        if size < 0 or from_ < 0:
            raise BadRequest("[size] parameter cannot be negative")
        if size + from_ > 10000:
            raise BadRequest("Result window is too large, from + size must be less than or equal to: [10000]")
        if pit is not None:
            if index is not None or preference is not None:
                raise BadRequest("[indices] and [preference] cannot be used with point in time")
            if pit["id"] not in self.pits:
                raise NotFound("No search context found for point in time")
            docs = self.pits[pit["id"]]
        else:
            docs = self.docs(index, preference)
        order = {id(d): i for i, d in enumerate(docs)}
        hits = [d for d in docs if matches(query or {"match_all": {}}, d)]
        total = sum(d.weight for d in hits)
        keys = []
        if sort is not None:
            for s in sort if isinstance(sort, list) else [sort] if isinstance(sort, dict) else sort.split(","):
                if isinstance(s, str):
                    f, _, o = s.partition(":")
                    keys.append((f, o or ("desc" if f == "_score" else "asc")))
                else:
                    f, o = one(s, "sort")
                    keys.append((f, o if isinstance(o, str) else o.get("order", "asc")))
        if any(f == "_shard_doc" for f, o in keys) and pit is None:
            raise BadRequest("[_shard_doc] sort field cannot be used without [point in time]")
        if any(f in ("_id", "text") for f, o in keys):
            raise BadRequest("Fielddata is disabled")
        if pit is not None and keys and not any(f == "_shard_doc" for f, o in keys):
            keys.append(("_shard_doc", "asc"))
        if search_after is not None and not keys:
            raise BadRequest("Sort must contain at least one field when using search_after")

        def val(d, f):
            if f in ("_shard_doc", "_doc"):
                return order[id(d)]
            if f == "_score":
                return 1.0
            v = d.src.get(f)
            return BIG if v is None else v

        def rank(x, o):
            x = (1, 0) if x == BIG else (0, x)
            return x if o == "asc" else Rev(x)
        if keys:
            dec = [([val(d, f) for f, o in keys], d) for d in hits]
            # equal keys come in no particular order: here in index order
            dec.sort(key=lambda t: [rank(x, o) for x, (f, o) in zip(t[0], keys)])
            if search_after is not None:
                if len(search_after) != len(keys):
                    raise BadRequest("search_after has a different number of values than sort")
                a = [rank(x, o) for x, (f, o) in zip(search_after, keys)]
                dec = [t for t in dec if [rank(x, o) for x, (f, o) in zip(t[0], keys)] > a]
        else:
            dec = [(None, d) for d in hits]
        out = []
        for s, d in dec[from_:from_ + size]:
            h = {"_index": next(n for n in self.idx if any(x is d for x in self.idx[n])) if pit is None else "i", "_id": d.id, "_score": None if keys else 1.0}
            if stored_fields is None and source is not False:
                h["_source"] = copy.deepcopy(d.src)
            if s is not None:
                h["sort"] = list(s)
            out.append(h)
        h = {"hits": out, "max_score": None}
        if track_total_hits is not False:
            lim = 10000 if track_total_hits is None and not as_int else None
            h["total"] = total if as_int else {"value": total if lim is None else min(total, lim), "relation": "eq" if lim is None or total <= lim else "gte"}
        r = {"took": 1, "timed_out": False, "_shards": {"total": 1, "successful": 1, "skipped": 0, "failed": 0}, "hits": h}
        if pit is not None:
            # the id may change with every answer; the latest one has to be used
            self.npit += 1
            new = f"pit{self.npit}"
            self.pits[new] = self.pits[pit["id"]]
            r["pit_id"] = new
        return r


class Rev:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return o.x < self.x

    def __gt__(self, o):
        return o.x > self.x

    def __eq__(self, o):
        return self.x == o.x


BODY = {"query", "size", "from", "sort", "search_after", "pit", "track_total_hits", "stored_fields", "_source", "track_scores", "timeout"}


class Client:
    def __init__(self, server, **k):
        self._s = server
        self.kw = k
        s = server
        self.cat = types.SimpleNamespace(
            shards=lambda index=None, format=None, **k: self._cat_shards(index),
            indices=lambda index=None, format=None, **k: [{"index": n, "docs.count": str(sum(d.weight for d in s.idx[n])), "health": "green", "pri": "1"} for n in sorted(s.idx)])
        self.indices = Indices(s)

    def _cat_shards(self, index):
        self._s.tick("cat.shards")
        out = []
        for n in self._s.names(index):
            for i in range(self._s.shards[n]):
                out.append({"index": n, "shard": str(i), "prirep": "p", "state": "STARTED"})
                out += [{"index": n, "shard": str(i), "prirep": "r", "state": "STARTED"}] * self._s.replicas[n]
        return out

    def options(self, **k):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unmodelled("Elasticsearch." + n)

    def ping(self):
        return True

    def count(self, *, index=None, query=None, body=None, **k):
        if k:
            raise Unmodelled(f"count {k}")
        self._s.tick("count")
        query = query or (body or {}).get("query")
        return {"count": sum(d.weight for d in self._s.docs(index) if matches(query or {"match_all": {}}, d)), "_shards": {"total": 1, "successful": 1, "skipped": 0, "failed": 0}}

    def search(self, *, index=None, body=None, **k):
        self._s.tick("search")
        return self._search(index, {**(body or {}), **k})

    def _search(self, index, k, as_int=False):
        k = dict(k)
        as_int = k.pop("rest_total_hits_as_int", as_int)
        pref = k.pop("preference", None)
        for x in ("timeout", "track_scores", "request_timeout", "search_type", "request_cache", "allow_partial_search_results"):
            k.pop(x, None)
        if "from_" in k:
            k["from"] = k.pop("from_")
        if "source" in k:
            k["_source"] = k.pop("source")
        if set(k) - BODY:
            raise Unmodelled(f"search {sorted(set(k) - BODY)}")
        return self._s.search(query=k.get("query"), index=index, size=k.get("size") if k.get("size") is not None else 10, from_=k.get("from") or 0, sort=k.get("sort"), search_after=k.get("search_after"),
                              pit=k.get("pit"), preference=pref, track_total_hits=k.get("track_total_hits"), stored_fields=k.get("stored_fields"), source=k.get("_source"), as_int=as_int)

    def msearch(self, *, searches=None, index=None, body=None, rest_total_hits_as_int=False, search_type=None, max_concurrent_searches=None, **k):
        if k:
            raise Unmodelled(f"msearch {k}")
        l = list(searches if searches is not None else body)
        if not l or len(l) % 2:
            raise BadRequest("msearch needs pairs of header and body")
        self._s.tick(f"msearch {len(l) // 2}")
        out = []
        for h, b in zip(l[::2], l[1::2]):
            try:
                out.append({**self._search(h.get("index", index), b, rest_total_hits_as_int), "status": 200})
            except ApiError as e:
                out.append({"error": {"type": str(e)}, "status": e.status_code})
        return {"took": 1, "responses": out}

    def open_point_in_time(self, *, index, keep_alive, **k):
        self._s.tick("open_point_in_time")
        self._s.npit += 1
        n = f"pit{self._s.npit}"
        self._s.pits[n] = list(self._s.docs(index))
        return {"id": n}

    def close_point_in_time(self, *, id=None, body=None, **k):
        self._s.tick("close_point_in_time")
        id = id or body["id"]
        if id not in self._s.pits:
            raise NotFound("no search context")
        snap = self._s.pits[id]
        self._s.pits = {k: v for k, v in self._s.pits.items() if v is not snap}
        return {"succeeded": True, "num_freed": 1}

    def get(self, *, index, id, **k):
        for d in self._s.docs(index):
            if d.id == id:
                return {"_index": index, "_id": id, "found": True, "_source": copy.deepcopy(d.src)}
        raise NotFound(id)

    def exists(self, *, index, id, **k):
        return any(d.id == id for d in self._s.docs(index))

    def mget(self, *, index=None, ids=None, docs=None, body=None, **k):
        if k:
            raise Unmodelled(f"mget {k}")
        if body:
            ids, docs = body.get("ids"), body.get("docs")
        want = [(x.get("_index", index), x["_id"]) for x in docs] if docs else [(index, x) for x in ids or []]
        if not want:
            raise BadRequest("no documents to get")
        out = []
        for n, i in want:
            if n not in self._s.idx:
                out.append({"_index": n, "_id": i, "error": {"type": "index_not_found_exception"}})
                continue
            d = next((d for d in self._s.idx[n] if d.id == i), None)
            out.append({"_index": n, "_id": i, "found": d is not None, **({"_source": copy.deepcopy(d.src)} if d else {})})
        return {"docs": out}

    def termvectors(self, *, index, id=None, fields=None, positions=True, offsets=True, payloads=True, term_statistics=False, field_statistics=True, preference=None, **k):
        if k:
            raise Unmodelled(f"termvectors {k}")
        self._s.tick("termvectors")
        d = next((d for d in self._s.docs(index) if d.id == id), None)
        if d is None:
            return {"_index": index, "_id": id, "found": False, "term_vectors": {}}
        f = fields[0] if fields else "text"
        same = [x for x in self._s.docs(index) if x.shard == d.shard]
        terms = {}
        for t in set(d.toks(f)):
            terms[t] = {"term_freq": d.toks(f).count(t)}
            if term_statistics:
                terms[t]["ttf"] = sum(x.toks(f).count(t) * x.weight for x in same)
                terms[t]["doc_freq"] = sum((t in x.toks(f)) * x.weight for x in same)
        return {"_index": index, "_id": id, "found": True, "term_vectors": {f: {"terms": terms}} if terms else {}}


class Indices:
    def __init__(self, s):
        self._s = s

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unmodelled("indices." + n)

    def get(self, *, index, **k):
        return {n: {"mappings": {}, "settings": {}} for n in self._s.names(index)}

    def exists(self, *, index, **k):
        return index in self._s.idx

    def get_mapping(self, *, index=None, **k):
        return {n: {"mappings": {"properties": {f: {"type": "text"} for f in self._s.fields.get(n, ["text"])}}} for n in self._s.names(index)}

    def create(self, *, index, settings=None, mappings=None, body=None, **k):
        self._s.tick("create")
        if index in self._s.idx:
            raise BadRequest(f"resource_already_exists_exception [{index}]")
        if index != index.lower() or index.startswith(("_", "-", "+")) or not index:
            raise BadRequest("invalid_index_name_exception")
        st = settings or (body or {}).get("settings") or {}
        n = st.get("index.number_of_shards", st.get("number_of_shards", (st.get("index") or {}).get("number_of_shards", 1) if isinstance(st.get("index"), dict) else 1))
        self._s.idx[index] = []
        self._s.shards[index] = int(n)
        self._s.replicas[index] = 0
        return {"acknowledged": True}

    def refresh(self, **k):
        return {}


# ---- helpers ------------------------------------------------------------------------------------------------
class BulkIndexError(Exception):
    def __init__(self, msg, errors):
        super().__init__(msg, errors)
        self.errors = errors


def _apply(s, a, created):
    op = a.get("_op_type", "index")
    if op not in ("create", "index"):
        raise Unmodelled("bulk " + op)
    index, id = a["_index"], a.get("_id")
    if index not in s.idx:
        s.idx[index], s.shards[index], s.replicas[index] = [], 1, 0
    src = a["_source"] if "_source" in a else {k: v for k, v in a.items() if not k.startswith("_")}
    id = str(id) if id is not None else f"auto{len(s.idx[index])}"
    if len(id.encode()) > 512:
        return False, {op: {"_index": index, "_id": id, "status": 400, "error": {"type": "id is too long"}}}
    if id in s.status:
        st = s.status[id]
        return False, {op: {"_index": index, "_id": id, "status": st, "error": {"type": "injected"}}}
    old = next((d for d in s.idx[index] if d.id == id), None)
    if old is not None and op == "create":
        return False, {op: {"_index": index, "_id": id, "status": 409, "error": {"type": "version_conflict_engine_exception"}}}
    if old is not None:
        s.idx[index].remove(old)
    s.add(index, id, src)
    return True, {op: {"_index": index, "_id": id, "status": 200 if old is not None else 201, "result": "created"}}


def streaming_bulk(client, actions, chunk_size=500, raise_on_error=True, raise_on_exception=True, ignore_status=(), max_chunk_bytes=None, expand_action_callback=None, max_retries=0, **k):
    import itertools
    s = client._s
    ig = {ignore_status} if isinstance(ignore_status, int) else set(ignore_status)
    it = iter(actions)
    while True:
        chunk = list(itertools.islice(it, chunk_size))
        if not chunk:
            return
        res = []
        for a in chunk:
            if s.fail_after is not None:
                if s.fail_after <= 0:
                    raise ConnectionError_("connection lost")
                s.fail_after -= 1
            res.append(_apply(s, a, None))
        s.tick(f"bulk {len(chunk)}")
        err = [r for ok, r in res if not ok and next(iter(r.values()))["status"] not in ig]
        if err and raise_on_error:
            raise BulkIndexError(f"{len(err)} document(s) failed to index.", err)
        for ok, r in res:
            yield ok, r


def parallel_bulk(client, actions, thread_count=4, chunk_size=500, queue_size=4, **k):
    """Chunks are sent by threads; the results come in the order of the chunks. Some chunks may be applied ahead of the
    results, and a later chunk before an earlier one."""
    import itertools
    s = client._s
    it = iter(actions)
    order = getattr(s, "order", 0)
    while True:
        block = []
        for _ in range(min(thread_count, 4)):
            c = list(itertools.islice(it, chunk_size))
            if c:
                block.append(c)
        if not block:
            return
        done = {}
        seq = list(range(len(block)))
        if order:
            seq.reverse()
        exc = None
        for i in seq:
            try:
                done[i] = list(streaming_bulk(client, block[i], chunk_size=chunk_size, **k))
            except ConnectionError_ as e:
                exc = e
                break
        for i in range(len(block)):
            if i not in done:
                raise exc
            yield from done[i]


def bulk(client, actions, stats_only=False, **k):
    ok, errors = 0, []
    for o, r in streaming_bulk(client, actions, **k):
        ok += o
        if not o:
            errors.append(r)
    return ok, (len(errors) if stats_only else errors)


SERVER = None


def install():
    import sys
    ex = stubs.mod("elasticsearch.exceptions", NotFoundError=NotFound, ApiError=ApiError, BadRequestError=BadRequest, ConnectionError=ConnectionError_, ConnectionTimeout=ConnectionError_, TransportError=ConnectionError_)
    he = stubs.mod("elasticsearch.helpers", parallel_bulk=parallel_bulk, streaming_bulk=streaming_bulk, bulk=bulk, BulkIndexError=BulkIndexError)

    def connect(*a, **k):
        c = Client(SERVER, **k)
        SERVER.clients.append(c)
        return c
    es = stubs.mod("elasticsearch", Elasticsearch=connect, exceptions=ex, helpers=he, NotFoundError=NotFound, ApiError=ApiError, BadRequestError=BadRequest)
    sys.modules.update({"elasticsearch": es, "elasticsearch.exceptions": ex, "elasticsearch.helpers": he})


def new():
    global SERVER
    SERVER = Server()
    return SERVER, Client(SERVER)


# ---- h5py ---------------------------------------------------------------------------------------------------
H5 = {}


class VLen:
    pass


class Dataset:
    def __init__(self, shape, maxshape, dtype):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        if len(shape) != 1:
            raise Unmodelled("h5py shape")
        self.maxshape = maxshape if maxshape is not None else shape
        if isinstance(dtype, VLen):
            self.width = None
        else:
            import numpy as np
            dt = np.dtype(dtype)
            if dt.kind != "S":
                raise Unmodelled(f"h5py dtype {dtype}")
            self.width = dt.itemsize
        self.a = [b""] * shape[0]

    @property
    def shape(self):
        return (len(self.a),)

    @property
    def size(self):
        return len(self.a)

    def __len__(self):
        return len(self.a)

    def resize(self, size, axis=None):
        n = size if isinstance(size, int) else size[0]
        if self.maxshape[0] is not None and n > self.maxshape[0]:
            raise ValueError("unable to extend dataset")
        self.a = self.a[:n] + [b""] * (n - len(self.a))

    def _idx(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if k is Ellipsis:
            k = slice(None)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unmodelled("h5py slice step")
            return range(*k.indices(len(self.a)))
        k = int(k)
        if k < 0:
            k += len(self.a)
        if not 0 <= k < len(self.a):
            raise IndexError("index out of range")
        return k

    def __getitem__(self, k):
        import numpy as np
        i = self._idx(k)
        if isinstance(i, range):
            return np.array([self.a[j] for j in i], dtype=object)
        return self.a[i]

    def _put(self, v):
        if isinstance(v, str):
            v = v.encode()
        v = bytes(v)
        return v if self.width is None else v[:self.width].rstrip(b"\0")

    def __setitem__(self, k, v):
        i = self._idx(k)
        if isinstance(i, int):
            self.a[i] = self._put(v)
            return
        if isinstance(v, (str, bytes)):
            v = [v] * len(i)
        v = list(v)
        if len(v) == 1:
            v = v * len(i)
        if len(v) != len(i):
            raise TypeError(f"Can't broadcast ({len(v)},) -> ({len(i)},)")
        for j, x in zip(i, v):
            self.a[j] = self._put(x)

    def __iter__(self):
        return iter(list(self.a))


class H5File:
    def __init__(self, name, mode="r", **k):
        name = str(name)
        if mode in ("r", "r+"):
            if name not in H5:
                raise FileNotFoundError(f"Unable to open file (unable to open file: name = '{name}')")
        elif mode == "w":
            H5[name] = {}
        elif mode in ("w-", "x"):
            if name in H5:
                raise FileExistsError(name)
            H5[name] = {}
        elif mode == "a":
            H5.setdefault(name, {})
        else:
            raise ValueError("invalid mode")
        self.d, self.mode, self.open = H5[name], mode, True

    def _chk(self, write=False):
        if not self.open:
            raise ValueError("Invalid location identifier")
        if write and self.mode == "r":
            raise ValueError("Unable to create dataset (no write intent on file)")

    def __getitem__(self, n):
        self._chk()
        return self.d[n]

    def __contains__(self, n):
        return n in self.d

    def keys(self):
        return self.d.keys()

    def create_dataset(self, n, shape=None, dtype=None, data=None, maxshape=None, **k):
        self._chk(True)
        if n in self.d:
            raise ValueError("name already exists")
        if shape is None:
            shape = (len(data),)
        d = self.d[n] = Dataset(shape, maxshape, dtype if dtype is not None else "S1")
        if data is not None:
            d[:] = data
        return d

    def flush(self):
        pass

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def string_dtype(encoding="utf-8", length=None):
    if length is not None:
        return f"S{length}"
    return VLen()


def install_h5():
    import sys
    sys.modules["h5py"] = stubs.mod("h5py", File=H5File, Dataset=Dataset, string_dtype=string_dtype, special_dtype=lambda vlen=None, **k: VLen())
