"""A small Jinja: text, {{ expression | filters }}, {% if %} / {% for %} with simple expressions."""
import re
import lib


class TemplateSyntaxError(Exception):
    pass


class Undefined:
    def __str__(self):
        return ""

    def __bool__(self):
        return False

    def __iter__(self):
        return iter(())

    def __eq__(self, o):
        return isinstance(o, Undefined)

    def __hash__(self):
        return 1


def truncate(s, length=255, killwords=False, end="...", leeway=5):
    if len(s) <= length + leeway:
        return s
    if killwords:
        return s[:length - len(end)] + end
    return s[:length - len(end)].rsplit(" ", 1)[0] + end


def _join(v, d="", attribute=None):
    return str(d).join(str(x) for x in v)


FILTERS = {"string": str, "truncate": truncate, "lower": lambda s: str(s).lower(), "upper": lambda s: str(s).upper(), "join": _join, "length": len, "trim": lambda s: str(s).strip(),
           "list": list, "int": int, "replace": lambda s, a, b: str(s).replace(a, b), "capitalize": lambda s: str(s).capitalize(), "title": lambda s: str(s).title(),
           "first": lambda s: next(iter(s), Undefined()), "tojson": lambda v: __import__("json").dumps(v)}

TOK = re.compile(r"\s*(?:(?P<num>\d+)|(?P<str>\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)*')|(?P<name>[A-Za-z_]\w*)|(?P<op>==|!=|<=|>=|[][().,|<>+*-]))", re.S)


class Parser:
    def __init__(self, s):
        self.t, i = [], 0
        while s[i:].strip():
            m = TOK.match(s, i)
            if not m:
                raise lib.Unmodelled("jinja expression " + s)
            k = m.lastgroup
            self.t.append((k, m.group(k)))
            i = m.end()
        self.i, self.s = 0, s

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def eat(self, v=None):
        k = self.peek()
        if v is not None and k[1] != v:
            raise lib.Unmodelled("jinja expression " + self.s)
        self.i += 1
        return k

    def whole(self):
        e = self.compare()
        if self.i != len(self.t):
            raise lib.Unmodelled("jinja expression " + self.s)
        return e

    def compare(self):
        a = self.filtered()
        while self.peek()[1] in ("==", "!=", "<", ">", "+", "-"):
            op = self.eat()[1]
            a = ("bin", op, a, self.filtered())
        return a

    def filtered(self):
        e = self.primary()
        while self.peek()[1] == "|":
            self.eat()
            n = self.eat()[1]
            args = []
            if self.peek()[1] == "(":
                args = self.args()
            e = ("filter", n, e, args)
        return e

    def args(self):
        self.eat("(")
        out = []
        while self.peek()[1] != ")":
            out.append(self.compare())
            if self.peek()[1] == ",":
                self.eat()
        self.eat(")")
        return out

    def primary(self):
        k, v = self.eat()
        if k == "num":
            e = ("lit", int(v))
        elif k == "str":
            e = ("lit", v[1:-1].encode("latin-1", "backslashreplace").decode("unicode_escape"))
        elif k == "name":
            e = ("lit", {"true": True, "True": True, "false": False, "False": False, "none": None, "None": None}[v]) if v in ("true", "True", "false", "False", "none", "None") else ("name", v)
        elif v == "(":
            e = self.compare()
            self.eat(")")
        elif v == "[":
            xs = []
            while self.peek()[1] != "]":
                xs.append(self.compare())
                if self.peek()[1] == ",":
                    self.eat()
            self.eat("]")
            e = ("list", xs)
        else:
            raise lib.Unmodelled("jinja expression " + self.s)
        while self.peek()[1] in ("[", ".", "("):
            if self.peek()[1] == "(":
                e = ("call", e, self.args())
                continue
            if self.eat()[1] == "[":
                x = self.compare()
                self.eat("]")
            else:
                x = ("lit", self.eat()[1])
            e = ("get", e, x)
        return e


def names(e):
    if isinstance(e, tuple):
        if e[0] == "name":
            yield e[1]
        elif e[0] != "lit":
            for x in e[1:]:
                yield from names(x)
    elif isinstance(e, list):
        for x in e:
            yield from names(x)


def parse(src):
    """-> list of nodes"""
    parts = re.split(r"(\{\{.*?\}\}|\{%.*?%\}|\{#.*?#\})", src, flags=re.S)
    pos = [0]

    def block(ends):
        out = []
        while pos[0] < len(parts):
            p = parts[pos[0]]
            pos[0] += 1
            if p.startswith("{{"):
                out.append(("out", Parser(p[2:-2]).whole()))
            elif p.startswith("{#"):
                pass
            elif p.startswith("{%"):
                w = p[2:-2].strip(" -\n")
                head = w.split()[0]
                if head in ends:
                    return out, w
                if head == "if":
                    arms = []
                    cond = Parser(w[2:]).whole()
                    while True:
                        b, end = block(("elif", "else", "endif"))
                        arms.append((cond, b))
                        if end == "endif":
                            break
                        cond = ("lit", True) if end == "else" else Parser(end[4:]).whole()
                    out.append(("if", arms))
                elif head == "for":
                    m = re.fullmatch(r"for\s+(\w+)\s+in\s+(.*)", w, re.S)
                    if not m:
                        raise lib.Unmodelled("jinja " + w)
                    b, end = block(("endfor",))
                    out.append(("for", m.group(1), Parser(m.group(2)).whole(), b))
                elif head == "set":
                    m = re.fullmatch(r"set\s+(\w+)\s*=\s*(.*)", w, re.S)
                    out.append(("set", m.group(1), Parser(m.group(2)).whole()))
                else:
                    raise lib.Unmodelled("jinja " + w)
            else:
                if "{{" in p or "}}" in p or "{%" in p:
                    raise TemplateSyntaxError(p)
                out.append(("text", p))
        if ends:
            raise TemplateSyntaxError("unexpected end of template")
        return out, None
    return block(())[0]


class Template:
    def __init__(self, env, nodes):
        self.env, self.nodes = env, nodes

    def render(self, *a, **k):
        ctx = {**self.env.globals, **(a[0] if a else {}), **k}
        return "".join(self._run(self.nodes, ctx))

    def _run(self, nodes, ctx):
        for n in nodes:
            if n[0] == "text":
                yield n[1]
            elif n[0] == "out":
                yield str(self._val(n[1], ctx))
            elif n[0] == "if":
                for c, b in n[1]:
                    if self._val(c, ctx):
                        yield from self._run(b, ctx)
                        break
            elif n[0] == "for":
                for x in self._val(n[2], ctx):
                    yield from self._run(n[3], {**ctx, n[1]: x})
            else:
                ctx[n[1]] = self._val(n[2], ctx)

    def _val(self, e, ctx):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "name":
            return ctx.get(e[1], Undefined()) if e[1] in ctx else Undefined()
        if k == "list":
            return [self._val(x, ctx) for x in e[1]]
        if k == "get":
            o, x = self._val(e[1], ctx), self._val(e[2], ctx)
            if isinstance(o, Undefined):
                raise TypeError("'undefined' has no attribute")
            try:
                return o[x]
            except (KeyError, IndexError, TypeError):
                return getattr(o, x) if isinstance(x, str) and hasattr(o, x) else Undefined()
        if k == "call":
            return self._val(e[1], ctx)(*[self._val(x, ctx) for x in e[2]])
        if k == "filter":
            f = self.env.filters.get(e[1])
            if f is None:
                raise lib.Unmodelled("jinja filter " + e[1])
            return f(self._val(e[2], ctx), *[self._val(x, ctx) for x in e[3]])
        a, b = self._val(e[2], ctx), self._val(e[3], ctx)
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "+": lambda: a + b, "-": lambda: a - b}[e[1]]()


class BaseLoader:
    pass


class Environment:
    def __init__(self, loader=None, **k):
        if k:
            raise lib.Unmodelled("jinja environment options")
        self.globals, self.filters = {"range": range}, dict(FILTERS)

    def from_string(self, s):
        n = parse(s)
        # a single newline at the end is dropped
        if n and n[-1][0] == "text" and n[-1][1].endswith("\n"):
            n[-1] = ("text", n[-1][1][:-1])
        return Template(self, n)

    def parse(self, s):
        return parse(s)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise lib.Unmodelled("jinja2.Environment." + n)


def find_undeclared_variables(nodes, bound=()):
    out = set()
    bound = set(bound)
    for n in nodes:
        if n[0] == "out":
            out |= set(names(n[1])) - bound
        elif n[0] == "if":
            for c, b in n[1]:
                out |= set(names(c)) - bound | find_undeclared_variables(b, bound)
        elif n[0] == "for":
            out |= set(names(n[2])) - bound | find_undeclared_variables(n[3], bound | {n[1]})
        elif n[0] == "set":
            out |= set(names(n[2])) - bound
            bound.add(n[1])
    return out - {"range"}


def modules():
    import stubs
    meta = stubs.mod("jinja2.meta", find_undeclared_variables=find_undeclared_variables)
    return {"jinja2": stubs.mod("jinja2", BaseLoader=BaseLoader, Environment=Environment, meta=meta, TemplateSyntaxError=TemplateSyntaxError), "jinja2.meta": meta,
            "pkg_resources": stubs.mod("pkg_resources")}
