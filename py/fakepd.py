"""A small pandas: tables of plain values, as far as converting records needs it."""
import datetime, json, math
import lib


class _Index(list):
    def tolist(self):
        return list(self)

    to_list = tolist

    def __eq__(self, o):
        return list(self) == list(o)

    def drop(self, x):
        x = [x] if isinstance(x, str) else list(x)
        return _Index(c for c in self if c not in x)

    def difference(self, x):
        return _Index(sorted(c for c in self if c not in list(x)))

    def isin(self, x):
        return [c in x for c in self]


class Series:
    def __init__(self, values=(), name=None):
        self.v = list(values)
        self.name = name

    def apply(self, f, *a, **k):
        return Series([f(x, *a, **k) for x in self.v], self.name)

    def map(self, f, na_action=None):
        return Series([(f.get(x, math.nan) if isinstance(f, dict) else f(x)) for x in self.v], self.name)

    def tolist(self):
        return list(self.v)

    to_list = tolist

    @property
    def values(self):
        return list(self.v)

    @property
    def str(self):
        return _Str(self)

    def astype(self, t):
        return Series([t(x) if t is not object else x for x in self.v], self.name) if callable(t) else Series([{"str": str, "object": lambda x: x}[t](x) for x in self.v])

    def __iter__(self):
        return iter(self.v)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]

    def items(self):
        return enumerate(self.v)

    def copy(self, deep=True):
        return Series(self.v, self.name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Series." + n)


class _Str:
    def __init__(self, s):
        self.s = s

    def lower(self):
        return self.s.apply(lambda x: x.lower())

    def replace(self, a, b, n=-1, regex=False, **k):
        if regex:
            raise lib.Unmodelled("Series.str.replace regex")
        return self.s.apply(lambda x: x.replace(a, b, n))

    def strip(self, c=None):
        return self.s.apply(lambda x: x.strip(c))

    def __getattr__(self, n):
        raise lib.Unmodelled("Series.str." + n)


class DataFrame:
    def __init__(self, data=None, columns=None):
        c = {}
        n = 0
        if isinstance(data, list):
            names = list(columns or [])
            for r in data:
                for k in r:
                    if k not in names:
                        names.append(k)
            c = {k: [r.get(k, math.nan) for r in data] for k in names}
            n = len(data)
        elif isinstance(data, dict):
            n = max([len(v) for v in data.values() if isinstance(v, (list, Series, tuple))] or [0])
            c = {k: list(v) if isinstance(v, (list, Series, tuple)) else [v] * n for k, v in data.items()}
        elif data is not None:
            raise lib.Unmodelled("DataFrame of " + type(data).__name__)
        self.__dict__["c"] = c
        self.__dict__["n"] = n

    @property
    def columns(self):
        return _Index(self.c)

    @property
    def index(self):
        return list(range(self.n))

    @property
    def shape(self):
        return (self.n, len(self.c))

    @property
    def empty(self):
        return not self.n or not self.c

    def __len__(self):
        return self.n

    def __contains__(self, k):
        return k in self.c

    def __iter__(self):
        return iter(self.c)

    def _new(self, c):
        r = DataFrame()
        r.__dict__["c"] = c
        r.__dict__["n"] = self.n
        return r

    def copy(self, deep=True):
        return self._new({k: list(v) for k, v in self.c.items()})

    def rename(self, mapper=None, *, columns=None, axis=None, inplace=False, errors="ignore"):
        m = columns if columns is not None else mapper if axis in (1, "columns") else None
        if m is None:
            raise lib.Unmodelled("rename of rows")
        if errors == "raise" and not callable(m) and any(k not in self.c for k in m):
            raise KeyError(str(m))
        c = {(m(k) if callable(m) else m.get(k, k)): list(v) for k, v in self.c.items()}
        if len(c) != len(self.c):
            raise lib.Unmodelled("two columns with one name")
        if inplace:
            self.__dict__["c"] = c
            return None
        return self._new(c)

    def __getitem__(self, k):
        if isinstance(k, (list, _Index)):
            if k and all(isinstance(x, bool) for x in k):
                raise lib.Unmodelled("rows by a mask")
            return self._new({x: list(self.c[x]) for x in k})
        return Series(self.c[k], k)

    def __setitem__(self, k, v):
        if isinstance(v, (list, Series, tuple)):
            v = list(v)
            if len(v) != self.n and self.c:
                raise ValueError(f"Length of values ({len(v)}) does not match length of index ({self.n})")
            self.c[k] = v
            self.__dict__["n"] = len(v)
        else:
            self.c[k] = [v] * self.n

    def assign(self, **k):
        r = self.copy()
        for a, v in k.items():
            r[a] = v(r) if callable(v) else v
        return r

    def insert(self, loc, column, value):
        self[column] = value

    def pop(self, k):
        s = self[k]
        del self.c[k]
        return s

    def __delitem__(self, k):
        del self.c[k]

    def filter(self, items=None, like=None, regex=None, axis=None):
        if items is None:
            raise lib.Unmodelled("filter")
        return self._new({x: list(self.c[x]) for x in items if x in self.c})

    def drop(self, labels=None, *, axis=0, columns=None, inplace=False, errors="raise"):
        cs = columns if columns is not None else labels if axis in (1, "columns") else None
        if cs is None:
            raise lib.Unmodelled("drop rows")
        cs = [cs] if isinstance(cs, str) else list(cs)
        for x in cs:
            if x not in self.c and errors == "raise":
                raise KeyError(x)
        c = {k: list(v) for k, v in self.c.items() if k not in cs}
        if inplace:
            self.__dict__["c"] = c
            return None
        return self._new(c)

    def to_dict(self, orient="dict", **k):
        if orient == "records":
            return [dict(zip(self.c, r)) for r in zip(*self.c.values())] if self.c else []
        if orient == "list":
            return {k: list(v) for k, v in self.c.items()}
        if orient == "dict":
            return {k: dict(enumerate(v)) for k, v in self.c.items()}
        raise lib.Unmodelled("to_dict " + orient)

    def iterrows(self):
        for i, r in enumerate(self.to_dict("records")):
            yield i, r

    def apply(self, f, axis=0, **k):
        if axis not in (1, "columns"):
            raise lib.Unmodelled("apply over columns")
        return Series([f(r) for r in self.to_dict("records")])

    def to_json(self, path=None, *, orient=None, lines=False, force_ascii=True, date_format=None, compression="infer", **k):
        if orient != "records" or k:
            raise lib.Unmodelled("to_json")

        def clean(x):
            if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
                return None
            if isinstance(x, dict):
                return {str(a): clean(b) for a, b in x.items()}
            if isinstance(x, (list, tuple)):
                return [clean(b) for b in x]
            if isinstance(x, (datetime.datetime, datetime.date)):
                return x.isoformat()
            return x
        rows = [json.dumps(clean(r), ensure_ascii=force_ascii, separators=(",", ":")).replace("/", "\\/") for r in self.to_dict("records")]
        s = "".join(x + "\n" for x in rows) if lines else "[" + ",".join(rows) + "]"
        if path is None:
            return s
        if hasattr(path, "write"):
            path.write(s)
            return None
        import gzip
        if compression == "gzip" or compression == "infer" and str(path).endswith(".gz"):
            with gzip.open(path, "wt", encoding="utf-8") as f:
                f.write(s)
        elif compression in (None, "infer"):
            with open(path, "w", encoding="utf-8") as f:
                f.write(s)
        else:
            raise lib.Unmodelled("to_json compression")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__["c"]:
            return self[n]
        raise lib.Unmodelled("DataFrame." + n)


def read_parquet(f, *a, columns=None, **k):
    if not hasattr(f, "read"):
        raise lib.Unmodelled("read_parquet of a path")
    b = f.read()
    if b[:4] != b"PAR1":
        raise OSError("Parquet magic bytes not found in footer")
    d = json.loads(b[4:])
    names = d["columns"] if columns is None else columns
    r = DataFrame({n: [] for n in names})
    r.__dict__["c"] = {n: [x[n] for x in d["rows"]] for n in names}
    r.__dict__["n"] = len(d["rows"])
    return r


def parquet(rows, columns):
    return b"PAR1" + json.dumps({"columns": list(columns), "rows": rows}).encode()


def concat(dfs, **k):
    rows = [r for d in dfs for r in d.to_dict("records")]
    return DataFrame(rows)


def modules():
    import stubs
    return {"pandas": stubs.mod("pandas", DataFrame=DataFrame, Series=Series, read_parquet=read_parquet, concat=concat, isna=lambda x: x is None or x != x,
                                isnull=lambda x: x is None or x != x, notna=lambda x: x is not None and x == x)}


# ---- fsspec -------------------------------------------------------------------------------------------------
class Https:
    """A read-only web: url -> bytes."""

    def __init__(self, files, hook=None, token="T"):
        self.files, self.hook, self.token = files, hook, token

    def _seen(self, what, url):
        if self.hook:
            self.hook(what, url)

    def exists(self, url, **k):
        self._seen("exists", url)
        return url in self.files

    isfile = exists

    def open(self, url, mode="rb", **k):
        import io
        self._seen("open", url)
        if url not in self.files:
            raise FileNotFoundError(url)
        b = io.BytesIO(self.files[url])
        return b if "b" in mode else io.TextIOWrapper(b, "utf-8")

    def cat(self, url, **k):
        return self.open(url).read()

    cat_file = cat

    def size(self, url):
        return len(self.files[url])

    def info(self, url, **k):
        if url not in self.files:
            raise FileNotFoundError(url)
        return {"name": url, "size": len(self.files[url]), "type": "file"}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("HTTPFileSystem." + n)


def fsspec(fs):
    import stubs

    def filesystem(proto, headers=None, **k):
        if proto not in ("https", "http"):
            raise lib.Unmodelled("filesystem " + proto)
        if (headers or {}).get("Authorization") != f"Bearer {fs.token}":
            raise PermissionError(f"401 {headers}")
        return fs
    return {"fsspec": stubs.mod("fsspec", filesystem=filesystem)}


# ---- Google Cloud Storage --------------------------------------------------------------------------------------
class Blob:
    def __init__(self, bucket, name):
        self.bucket, self.name = bucket, name

    def _data(self):
        b = self.bucket.store.blobs.get((self.bucket.name, self.name))
        if b is None:
            raise FileNotFoundError(f"404 {self.name}")
        return b

    @property
    def size(self):
        return len(self._data())

    def exists(self, *a, **k):
        return (self.bucket.name, self.name) in self.bucket.store.blobs

    def compose(self, sources, **k):
        sources = list(sources)
        if not 1 <= len(sources) <= 32:
            raise ValueError("400 The number of source components provided (%d) is not in 1..32" % len(sources))
        if any(s.bucket.name != self.bucket.name for s in sources):
            raise ValueError("400 sources must be in the same bucket")
        self.bucket.store.put(self, b"".join(s._data() for s in sources))

    def download_to_file(self, f, **k):
        f.write(self._data())

    def download_as_bytes(self, **k):
        return self._data()

    def download_to_filename(self, n, **k):
        with open(n, "wb") as f:
            f.write(self._data())

    def upload_from_file(self, f, rewind=False, **k):
        if rewind:
            f.seek(0)
        self.bucket.store.put(self, f.read())

    def upload_from_string(self, s, **k):
        self.bucket.store.put(self, s.encode() if isinstance(s, str) else s)

    def upload_from_filename(self, n, **k):
        with open(n, "rb") as f:
            self.bucket.store.put(self, f.read())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Blob." + n)


class Bucket:
    def __init__(self, store, name):
        self.store, self.name = store, name

    def list_blobs(self, prefix=None, **k):
        if k:
            raise lib.Unmodelled("list_blobs options")
        names = sorted(n for b, n in self.store.blobs if b == self.name and n.startswith(prefix or ""))
        return [Blob(self, n) for n in names]

    def blob(self, name):
        return Blob(self, name)

    def get_blob(self, name):
        b = Blob(self, name)
        return b if b.exists() else None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Bucket." + n)


class Store:
    def __init__(self):
        self.blobs, self.writes, self.fail_at = {}, [], None

    def put(self, blob, data):
        """A write appears as a whole or not at all."""
        k = (blob.bucket.name, blob.name)
        if self.fail_at is not None and len(self.writes) >= self.fail_at:
            raise ConnectionError("connection lost")
        self.writes.append(k)
        self.blobs[k] = data

    def client(self, *a, **k):
        s = self

        class Client:
            def bucket(self, name):
                return Bucket(s, name)

            get_bucket = bucket

            def list_blobs(self, bucket, prefix=None):
                return (bucket if isinstance(bucket, Bucket) else Bucket(s, bucket)).list_blobs(prefix)
        return Client()

    def modules(self):
        import stubs
        st = stubs.mod("google.cloud.storage", Client=self.client, Bucket=Bucket, Blob=Blob)
        cl = stubs.mod("google.cloud", storage=st)
        return {"google": stubs.mod("google", cloud=cl), "google.cloud": cl, "google.cloud.storage": st}


# ---- TensorFlow records -----------------------------------------------------------------------------------------
class Record:
    def __init__(self, b):
        self.b = b

    def numpy(self):
        return self.b


def TFRecordDataset(name, *a, **k):
    import base64
    with open(name, "rb") as f:
        b = f.read()
    return [Record(base64.b64decode(x)) for x in b.split(b"\n")[:-1]]


def tfrecords(rows):
    import base64
    return b"".join(base64.b64encode(json.dumps(r).encode()) + b"\n" for r in rows)


class _Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class Example:
    def __init__(self):
        self.features = _Obj(feature={})

    def ParseFromString(self, b):
        d = json.loads(b)
        self.features = _Obj(feature={k: _Obj(bytes_list=_Obj(value=[v.encode()])) for k, v in d.items()})
        return len(b)

    MergeFromString = ParseFromString

    @classmethod
    def FromString(cls, b):
        e = cls()
        e.ParseFromString(b)
        return e


def tf_modules():
    import stubs
    tr = stubs.mod("tensorflow.train", Example=Example)
    data = stubs.mod("tensorflow.python.data", TFRecordDataset=TFRecordDataset)
    tf = stubs.mod("tensorflow", train=tr, data=data)
    return {"tensorflow": tf, "tensorflow.train": tr, "tensorflow.data": data, "tensorflow.python": stubs.mod("tensorflow.python", data=data), "tensorflow.python.data": data,
            "ftfy": stubs.mod("ftfy", ftfy=lambda t, *a, **k: t.replace("\u00e2\u20ac\u2122", "'"), fix_text=lambda t, *a, **k: t.replace("\u00e2\u20ac\u2122", "'"))}
