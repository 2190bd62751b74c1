"""Stand-ins for Python packages that are not installed here, with the documented behaviour of the parts in use."""
import builtins, csv as _csv, gzip, os, re, sys, types, typing
import lib


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__file__ = f"<stand-in for {name}>"

    def missing(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        raise lib.Unmodelled(f"{name}.{attr} has no stand-in")
    m.__getattr__ = missing
    m.__path__ = []
    return m


# ---- tqdm ---------------------------------------------------------------------------------------------------
class tqdm:
    def __init__(self, iterable=None, *a, **k):
        self.iterable, self.n, self.total = iterable, 0, k.get("total")

    def __iter__(self):
        for x in self.iterable:
            yield x
            self.n += 1

    def __len__(self):
        return len(self.iterable)

    def update(self, n=1):
        self.n += n

    def set_postfix(self, *a, **k):
        pass

    set_description = set_postfix_str = set_description_str = refresh = close = clear = reset = set_postfix

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @staticmethod
    def write(s, file=None, end="\n"):
        print(s, file=file or sys.stdout, end=end)


def trange(*a, **k):
    return tqdm(range(*a), **k)


# ---- smart_open ---------------------------------------------------------------------------------------------
def smart_open_open(uri, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    uri = os.fspath(uri)
    if "://" in uri:
        raise lib.Unmodelled("remote file " + uri)
    if uri.endswith(".gz") and k.get("compression", "infer_from_extension") == "infer_from_extension":
        m = mode if "b" in mode or "t" in mode else mode + "t"
        return gzip.open(uri, m, encoding=None if "b" in m else encoding or "utf-8", **({} if "b" in m else {"errors": errors, "newline": newline}))
    return builtins.open(uri, mode, buffering, encoding or (None if "b" in mode else "utf-8"), errors, newline)


# ---- tldextract: a small public suffix list -----------------------------------------------------------------
SUFFIXES = {"com", "org", "net", "uk", "co.uk", "io", "de"}


class ExtractResult(typing.NamedTuple):
    subdomain: str
    domain: str
    suffix: str
    is_private: bool = False

    @property
    def top_domain_under_public_suffix(self):
        return self.domain + "." + self.suffix if self.domain and self.suffix else ""

    @property
    def ipv4(self):
        return ""

    @property
    def registered_domain(self):
        return self.domain + "." + self.suffix if self.domain and self.suffix else ""

    @property
    def fqdn(self):
        return ".".join(x for x in self[:3] if x) if self.domain and self.suffix else ""


class TLDExtract:
    def __init__(self, *a, **k):
        pass

    def __call__(self, url, *a, **k):
        return tld_extract(url)

    extract_str = __call__

    def extract_urllib(self, u, *a, **k):
        return tld_extract(u.netloc)


def tld_extract(url, *a, **k):
    host = re.sub(r"^[a-zA-Z][a-zA-Z0-9+.-]*://|^//", "", url)
    host = re.split(r"[/?#]", host)[0].rsplit("@", 1)[-1].split(":")[0].rstrip(".")
    parts = host.split(".")
    for i in range(len(parts)):
        s = ".".join(parts[i:]).lower()
        if s in SUFFIXES:
            return ExtractResult(".".join(parts[:max(i - 1, 0)]), parts[i - 1] if i else "", ".".join(parts[i:]))
    return ExtractResult(".".join(parts[:-1]), parts[-1], "")


# ---- uniseg, nltk -------------------------------------------------------------------------------------------
def uniseg_words(s, *a, **k):
    """Segments that concatenate to the text; runs of word characters, else single characters."""
    for m in re.finditer(r"\w+|[^\w]", s, re.S):
        yield m.group()


def wordpunct_tokenize(s):
    return re.findall(r"\w+|[^\w\s]+", s)


class WordPunctTokenizer:
    def tokenize(self, s):
        return wordpunct_tokenize(s)

    def span_tokenize(self, s):
        return (m.span() for m in re.finditer(r"\w+|[^\w\s]+", s))

    def tokenize_sents(self, ss):
        return [self.tokenize(s) for s in ss]


class RegexpTokenizer:
    def __init__(self, pattern, gaps=False, discard_empty=True, flags=re.UNICODE | re.MULTILINE | re.DOTALL):
        self.rx, self.gaps, self.discard = re.compile(pattern, flags), gaps, discard_empty

    def tokenize(self, s):
        if self.gaps:
            return [x for x in self.rx.split(s) if x or not self.discard]
        return self.rx.findall(s)


def regexp_tokenize(s, pattern, **k):
    return RegexpTokenizer(pattern, **k).tokenize(s)


# ---- pycld2: the language is decided by markers in the text ---------------------------------------------------
class cld2_error(Exception):
    pass


def cld2_detect(text, *a, **k):
    if "\x01bad" in text:
        raise cld2_error("input contains invalid UTF-8")
    m = re.search(r"lang:(\w+)", text)
    lang = m.group(1) if m else "un"
    rel = m is not None and "?" not in text
    return rel, len(text.encode()), ((lang.upper(), lang, 99, 1.0), ("Unknown", "un", 0, 0.0), ("Unknown", "un", 0, 0.0))


# ---- profanity_check, spacy ---------------------------------------------------------------------------------
def predict_profanity(texts):
    import numpy as np
    if isinstance(texts, str):
        texts = [texts]
    texts = list(texts)
    if not texts:
        raise ValueError("Found array with 0 sample(s)")
    # a sentence is profane when it has more bad than good words: a text may differ from its sentences
    return np.array([int(t.lower().split().count("bad") > t.lower().split().count("good")) for t in texts])


class Token:
    def __init__(self, text, i=0, white=""):
        self.text = self.orth_ = text
        self.lower_ = text.lower()
        self.i, self.whitespace_ = i, white
        self.text_with_ws = text + white
        self.is_punct = not re.match(r"\w", text)
        self.is_alpha = text.isalpha()
        self.is_space = text.isspace()

    def __str__(self):
        return self.text

    def __len__(self):
        return len(self.text)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Token." + n)


class Blob:
    def __init__(self, text):
        # dyadic, so that sums are exact
        w = re.findall(r"\w+", text)
        self.polarity = (w.count("good") - w.count("awful")) / 4 + w.count("mild") / 2**30
        self.subjectivity = 0.5

    @property
    def sentiment(self):
        return Sentiment(self.polarity, self.subjectivity)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Blob." + n)


class Sentiment(typing.NamedTuple):
    polarity: float
    subjectivity: float


class Under:
    def __init__(self, text):
        self.blob = Blob(text)
        self.polarity, self.subjectivity = self.blob.sentiment

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("_." + n)


class Span:
    def __init__(self, text):
        self.text = text
        self._ = Under(text)

    def _tokens(self):
        return [Token(m.group(1), i, m.group(2)) for i, m in enumerate(re.finditer(r"(\w+|[^\w\s])( ?)", self.text))]

    def __iter__(self):
        return iter(self._tokens())

    def __len__(self):
        return len(self._tokens())

    def __getitem__(self, i):
        return self._tokens()[i]

    def __str__(self):
        return self.text

    @property
    def text_with_ws(self):
        return self.text

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Span." + n)


class Doc(Span):
    @property
    def sents(self):
        return iter([Span(t) for t in re.findall(r"[^.!?]+[.!?]*|[.!?]+", self.text)])


class English:
    def __init__(self, *a, **k):
        self.pipes = []
        self.max_length = 1000000

    def add_pipe(self, name, *a, **k):
        if name in self.pipes:
            raise ValueError(f"'{name}' already exists in pipeline")
        self.pipes.append(name)

    @property
    def pipe_names(self):
        return list(self.pipes)

    def has_pipe(self, n):
        return n in self.pipes

    def make_doc(self, text):
        return self(text)

    def __call__(self, text, **k):
        if len(text) > self.max_length:
            raise ValueError("[E088] Text too long")
        return Doc(text)

    def pipe(self, texts, *a, as_tuples=False, **k):
        for t in texts:
            yield (self(t[0]), t[1]) if as_tuples else self(t)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("English." + n)


# ---- pandas: the little that is used ------------------------------------------------------------------------
class Series:
    def __init__(self, values, index=None):
        self.values = list(values)
        self.index = list(index) if index is not None else list(range(len(self.values)))

    def __eq__(self, o):
        return Series([v == o for v in self.values], self.index)

    def __ne__(self, o):
        return Series([v != o for v in self.values], self.index)

    def isin(self, s):
        return Series([v in s for v in self.values], self.index)

    def __truediv__(self, o):
        import math
        other = dict(zip(o.index, o.values)) if isinstance(o, Series) else None
        idx = list(self.index) + ([i for i in o.index if i not in self.index] if other is not None else [])
        if other is not None and set(self.index) != set(o.index):
            idx = sorted(idx)
        mine = dict(zip(self.index, self.values))
        out = []
        for i in idx:
            a, b = mine.get(i, math.nan), other.get(i, math.nan) if other is not None else o
            try:
                out.append(a / b)
            except ZeroDivisionError:
                out.append(math.nan if a == 0 or a != a else math.copysign(math.inf, a))
        return Series(out, idx)

    div = truediv = divide = __truediv__

    def tolist(self):
        return list(self.values)

    to_list = tolist

    def to_dict(self):
        return dict(zip(self.index, self.values))

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        if isinstance(i, Series):
            keep = [j for j, b in enumerate(i.values) if b]
            return Series([self.values[j] for j in keep], [self.index[j] for j in keep])
        return self.values[self.index.index(i)]

    @property
    def loc(self):
        return self

    def get(self, i, default=None):
        return self[i] if i in self.index else default

    def __contains__(self, i):
        return i in self.index

    keys = property(lambda self: lambda: list(self.index))

    def items(self):
        return zip(self.index, self.values)

    def map(self, f, *a, **k):
        return Series([f.get(v, float("nan")) if isinstance(f, dict) else f(v) for v in self.values], self.index)

    def apply(self, f, *a, **k):
        return Series([f(v, *a, **k) for v in self.values], self.index)

    def astype(self, t):
        return Series([t(v) for v in self.values] if callable(t) and t is not object else [str(v) for v in self.values] if t == "str" else self.values, self.index)

    def fillna(self, x):
        return Series([x if v != v or v is None else v for v in self.values], self.index)

    def dropna(self):
        k = [i for i, v in enumerate(self.values) if v == v and v is not None]
        return Series([self.values[i] for i in k], [self.index[i] for i in k])

    def unique(self):
        return list(dict.fromkeys(self.values))

    def __and__(self, o):
        return Series([a and b for a, b in zip(self.values, o)], self.index)

    def __or__(self, o):
        return Series([a or b for a, b in zip(self.values, o)], self.index)

    def __invert__(self):
        return Series([not a for a in self.values], self.index)

    def __mul__(self, o):
        return Series([a * o for a in self.values], self.index)

    def sum(self):
        return sum(self.values)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Series." + n)


class _Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        rows, cols = k if isinstance(k, tuple) else (k, None)
        df = self.df
        if isinstance(rows, (Series, list)) and len(rows) == len(df.index) and all(isinstance(x, bool) for x in rows):
            df = df[rows if isinstance(rows, Series) else Series(rows, df.index)]
        elif isinstance(rows, slice) and rows == slice(None):
            pass
        elif cols is None:
            return Series([v[df.index.index(rows)] for v in df.cols.values()], list(df.cols))
        else:
            return df[cols][rows]
        return df if cols is None else df[cols]


class _Groups:
    def __init__(self, df, by, col=None):
        self.df, self.by, self.col = df, by, col

    def _each(self):
        keys = sorted({v for v in self.df.cols[self.by] if v == v})
        for k in keys:
            g = self.df[self.df[self.by] == k]
            yield k, g[self.col] if self.col else g

    def __iter__(self):
        return self._each()

    def __getitem__(self, c):
        return _Groups(self.df, self.by, c)

    def apply(self, f):
        x = list(self._each())
        return Series([f(g) for k, g in x], [k for k, g in x])

    agg = aggregate = apply

    def get_group(self, k):
        return dict(self._each())[k]

    @property
    def groups(self):
        return {k: list(g.index) for k, g in self._each()}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("GroupBy." + n)


class DataFrame:
    def __init__(self, data=None, index=None):
        import math
        data = data or {}
        cols = {}
        if any(isinstance(v, dict) for v in data.values()):
            idx = []
            for v in data.values():
                idx += [k for k in v if k not in idx]
            for c, v in data.items():
                cols[c] = [v.get(i, math.nan) for i in idx]
            self.index = idx
        else:
            cols = {c: list(v) for c, v in data.items()}
            self.index = list(range(len(next(iter(cols.values()), []))))
        self.__dict__["cols"] = cols

    @property
    def columns(self):
        return list(self.cols)

    def fillna(self, x):
        r = DataFrame({c: [x if v != v or v is None else v for v in vs] for c, vs in self.cols.items()})
        r.index = list(self.index)
        return r

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)) and all(isinstance(x, str) for x in k):
            r = DataFrame({c: self.cols[c] for c in k})
            r.index = list(self.index)
            return r
        if isinstance(k, list):
            k = Series(k, self.index)
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return Series(self.cols[k], self.index)
        if isinstance(k, Series):
            keep = [i for i, b in enumerate(k.values) if b]
            r = DataFrame({c: [v[i] for i in keep] for c, v in self.cols.items()})
            r.index = [self.index[i] for i in keep]
            return r
        raise lib.Unmodelled("DataFrame[...]")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__.get("cols", {}):
            return self[n]
        raise lib.Unmodelled("DataFrame." + n)

    def __len__(self):
        return len(self.index)

    @property
    def loc(self):
        return _Loc(self)

    def groupby(self, by, **k):
        if not isinstance(by, str) or k.get("as_index") is False:
            raise lib.Unmodelled("groupby")
        return _Groups(self, by)

    def query(self, q, **k):
        m = re.fullmatch(r"\s*`?(\w+)`?\s*==\s*(?:'([^']*)'|\"([^\"]*)\"|@(\w+))\s*", q)
        if not m:
            raise lib.Unmodelled("query " + q)
        v = m.group(2) if m.group(2) is not None else m.group(3)
        if m.group(4):
            fr = sys._getframe(1)
            v = fr.f_locals.get(m.group(4), fr.f_globals.get(m.group(4)))
        return self[self[m.group(1)] == v]

    def iterrows(self):
        for i, r in zip(self.index, zip(*self.cols.values())):
            yield i, Series(r, list(self.cols))

    def itertuples(self, index=True, name="Pandas"):
        import collections
        T = collections.namedtuple(name, (["Index"] if index else []) + list(self.cols))
        for i, r in zip(self.index, zip(*self.cols.values())):
            yield T(*([i] if index else []), *r)

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict(zip(self.cols, r)) for r in zip(*self.cols.values())]
        if orient == "list":
            return {c: list(v) for c, v in self.cols.items()}
        if orient == "dict":
            return {c: dict(zip(self.index, v)) for c, v in self.cols.items()}
        raise lib.Unmodelled("to_dict " + orient)

    def items(self):
        return ((c, self[c]) for c in self.cols)

    def __iter__(self):
        return iter(self.cols)

    def __contains__(self, c):
        return c in self.cols

    def apply(self, f, axis=0, **k):
        if axis not in (1, "columns"):
            raise lib.Unmodelled("apply over columns")
        return Series([f(r) for i, r in self.iterrows()], self.index)

    @property
    def T(self):
        r = DataFrame({i: {c: v[j] for c, v in self.cols.items()} for j, i in enumerate(self.index)})
        r.index = list(self.cols)
        return r

    @classmethod
    def from_dict(cls, d, orient="columns", **k):
        return cls(d) if orient == "columns" else cls(d).T


def read_csv(path, usecols=None, encoding=None, keep_default_na=True, **k):
    import math
    if k:
        raise lib.Unmodelled(f"read_csv {sorted(k)}")
    with open(path, newline="", encoding=encoding or "utf-8") as f:
        rows = list(_csv.reader(f))
    cols = {h: [] for h in rows[0]}
    for r in rows[1:]:
        for h, v in zip(rows[0], r + [""] * len(rows[0])):
            cols[h].append(math.nan if v == "" and keep_default_na else v)
    return DataFrame({c: v for c, v in cols.items() if usecols is None or c in usecols})


# ---- requests -----------------------------------------------------------------------------------------------
class RequestException(IOError):
    pass


class HTTPError(RequestException):
    pass


class RConnectionError(RequestException):
    pass


class Timeout(RequestException):
    pass


class ConnectTimeout(RConnectionError, Timeout):
    pass


class ReadTimeout(Timeout):
    pass


class TooManyRedirects(RequestException):
    pass


class MissingSchema(RequestException, ValueError):
    pass


class InvalidSchema(RequestException, ValueError):
    pass


class InvalidURL(RequestException, ValueError):
    pass


class ChunkedEncodingError(RequestException):
    pass


class ContentDecodingError(RequestException):
    pass


class SSLError(RConnectionError):
    pass


class ProxyError(RConnectionError):
    pass


REX = dict(RequestException=RequestException, HTTPError=HTTPError, ConnectionError=RConnectionError, Timeout=Timeout, ConnectTimeout=ConnectTimeout, ReadTimeout=ReadTimeout,
           TooManyRedirects=TooManyRedirects, MissingSchema=MissingSchema, InvalidSchema=InvalidSchema, InvalidURL=InvalidURL, ChunkedEncodingError=ChunkedEncodingError,
           ContentDecodingError=ContentDecodingError, SSLError=SSLError, ProxyError=ProxyError)


def sessions(get):
    """requests.Session and the functions at module level, over one function."""
    class Session:
        def __init__(self):
            self.headers = {}

        def get(self, url, **k):
            return get(url, **k)

        def head(self, url, **k):
            return get(url, **{"allow_redirects": False, **k})

        def request(self, method, url, **k):
            return get(url, **k)

        def mount(self, prefix, adapter):
            pass

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return dict(Session=Session, session=Session, request=lambda method, url, **k: get(url, **k))


class Response:
    def __init__(self, url, allow_redirects=True):
        m = re.search(r"/status/(\d+)", url)
        if "/moved/" in url and not allow_redirects:
            m = re.match(r"(302)", "302")
        self.status_code = int(m.group(1)) if m else 200
        self.url = url
        self.is_redirect = "/moved/" in url and not allow_redirects
        self.is_permanent_redirect = False
        self.headers = {"location": url} if self.is_redirect else {}
        self.content, self.text, self.encoding = b"x", "x", "utf-8"

    @property
    def ok(self):
        return self.status_code < 400

    def __bool__(self):
        return self.ok

    @property
    def reason(self):
        return "OK" if self.ok else "Error"

    def iter_content(self, *a, **k):
        return iter([b"x"])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("Response." + n)

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(f"{self.status_code} for {self.url}")

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


REQUESTS = []


def rget(url, *a, allow_redirects=True, **k):
    """/status/N answers N; /moved/... redirects, and what stands at the new place is what the rest of the path says."""
    REQUESTS.append(url)
    scheme = re.match(r"([^:/?#]*):", url)
    if not scheme:
        raise MissingSchema(f"Invalid URL {url!r}: No scheme supplied")
    if scheme.group(1).lower() not in ("http", "https"):
        raise InvalidSchema(f"No connection adapters were found for {url!r}")
    if not re.match(r"https?://[^/?#\[\]]", url, re.I):
        raise InvalidURL(f"Invalid URL {url!r}: No host supplied")
    if "/endless" in url and allow_redirects:
        raise TooManyRedirects("Exceeded 30 redirects.")
    for part, e in (("/certificate", SSLError), ("/slow", ReadTimeout), ("/never", ConnectTimeout)):
        if part in url:
            raise e(url)
    if "/unreachable" in url and ("/moved/" not in url or allow_redirects):
        raise RConnectionError(url)
    return Response(url, allow_redirects)


def rhead(url, **k):
    return rget(url, **{"allow_redirects": False, **k})


# ---- more_itertools -----------------------------------------------------------------------------------------
def chunked(iterable, n, strict=False):
    import itertools
    it = iter(iterable)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def take(n, it):
    import itertools
    return list(itertools.islice(it, n))


def ichunked(iterable, n):
    return map(iter, chunked(iterable, n))


def batched(iterable, n, strict=False):
    return map(tuple, chunked(iterable, n))


def divide(n, iterable):
    s = list(iterable)
    q, r = divmod(len(s), n)
    out, i = [], 0
    for k in range(n):
        j = i + q + (k < r)
        out.append(iter(s[i:j]))
        i = j
    return out


def sliced(seq, n, strict=False):
    return (seq[i:i + n] for i in range(0, len(seq), n))


def partition(pred, iterable):
    s = list(iterable)
    return iter([x for x in s if not pred(x)]), iter([x for x in s if pred(x)])


def first(it, *d):
    return next(iter(it), *d)


def ilen(it):
    return sum(1 for _ in it)


def unique_everseen(it, key=None):
    seen = set()
    for x in it:
        k = key(x) if key else x
        if k not in seen:
            seen.add(k)
            yield x


def powerset(it):
    import itertools
    s = list(it)
    return itertools.chain.from_iterable(itertools.combinations(s, r) for r in range(len(s) + 1))


def install():
    M = sys.modules
    t = mod("tqdm", tqdm=tqdm, trange=trange)
    M["tqdm"] = t
    for s in ("auto", "autonotebook", "notebook", "std"):
        M["tqdm." + s] = mod("tqdm." + s, tqdm=tqdm, trange=trange)
        setattr(t, s, M["tqdm." + s])
    M["smart_open"] = mod("smart_open", open=smart_open_open, smart_open=smart_open_open)
    M["tldextract"] = mod("tldextract", extract=tld_extract, TLDExtract=TLDExtract, ExtractResult=ExtractResult)
    M["uniseg"] = mod("uniseg")
    M["uniseg.wordbreak"] = mod("uniseg.wordbreak", words=uniseg_words)
    tk = dict(wordpunct_tokenize=wordpunct_tokenize, WordPunctTokenizer=WordPunctTokenizer, RegexpTokenizer=RegexpTokenizer, regexp_tokenize=regexp_tokenize)
    M["nltk"] = mod("nltk", **tk)
    M["nltk.tokenize"] = mod("nltk.tokenize", **tk)
    M["nltk.tokenize.regexp"] = mod("nltk.tokenize.regexp", **tk)
    M["nltk"].tokenize = M["nltk.tokenize"]
    M["nltk.tokenize"].regexp = M["nltk.tokenize.regexp"]
    M["pycld2"] = mod("pycld2", error=cld2_error, detect=cld2_detect)
    M["profanity_check"] = mod("profanity_check", predict=predict_profanity)
    M["spacy"] = mod("spacy", blank=lambda name, *a, **k: English())
    M["spacy.lang"] = mod("spacy.lang")
    M["spacy.lang.en"] = mod("spacy.lang.en", English=English)
    M["spacy"].lang, M["spacy.lang"].en = M["spacy.lang"], M["spacy.lang.en"]
    M["spacytextblob"] = mod("spacytextblob")
    M["spacytextblob.spacytextblob"] = mod("spacytextblob.spacytextblob", SpacyTextBlob=object)
    M["pandas"] = mod("pandas", DataFrame=DataFrame, Series=Series, read_csv=read_csv)
    ex = mod("requests.exceptions", **REX)
    M["requests"] = mod("requests", get=rget, head=rhead, exceptions=ex, Response=Response,
                        **{k: REX[k] for k in ("RequestException", "HTTPError", "ConnectionError", "Timeout", "ConnectTimeout", "ReadTimeout", "TooManyRedirects")}, **sessions(rget))
    M["requests.exceptions"] = ex
    M["more_itertools"] = mod("more_itertools", chunked=chunked, take=take, ichunked=ichunked, batched=batched, divide=divide, sliced=sliced, partition=partition, first=first,
                              ilen=ilen, unique_everseen=unique_everseen, powerset=powerset)
    for k in list(M):
        if getattr(M[k], "__file__", None) and str(M[k].__file__).startswith("<stand-in") and "." in k:
            parent, child = k.rsplit(".", 1)
            if child not in vars(M[parent]):
                setattr(M[parent], child, M[k])
