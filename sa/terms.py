"""Abstract values of the analysis.

Constants of the program are kept as Python constants.  Everything that is not
a constant is a *provenance term*: it says where a value comes from, never
which value it is.  Terms are hash-consed and kept in a normal form, so that
two ways of writing the same computation give the same term.

  Sym   an unknown scalar supplied by the caller (kind: str, int, float, ...)
  App   the result of a modelled operation on other terms
  Run   a fixed-width run of decimal digits showing an integer term
  AStr  a text made of literal pieces and atoms (Sym / App / Run of kind str)
  Lin   an integer-linear combination of terms
"""

WS = " \t\n\r\x0b\x0c"


class Val:
    __slots__ = ()


class Sym(Val):
    __slots__ = ("name", "kind", "props", "uid")
    _n = 0

    def __init__(self, name, kind, **props):
        Sym._n += 1
        self.uid = Sym._n
        self.name = name
        self.kind = kind
        self.props = props

    def __repr__(self):
        return self.name


def _key(a):
    if isinstance(a, tuple):
        return ("()",) + tuple(_key(x) for x in a)
    if isinstance(a, (bool, int, float, str, bytes, type(None))):
        return (type(a).__name__, a)
    return ("#", id(a), a)


_table = {}


class App(Val):
    __slots__ = ("op", "args", "kind", "taint", "__weakref__")

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(show(a) for a in self.args))


#: operations the analysis has an exact model of; anything else is tainted
KNOWN = {
    "str", "int", "float", "uuid", "upper", "lower", "strip", "lstrip", "rstrip", "len", "hash",
    "floordiv", "mod", "mul", "div", "pow", "neg", "abs", "round",
    "eq", "lt", "contains", "replace", "nonempty", "isupper", "islower", "startswith", "endswith",
    "geturl", "urlparse", "dt.year", "dt.month", "dt.day", "dt.hour", "dt.minute", "dt.second",
    "dt.microsecond", "dt.make", "dt.ms", "dt.s", "tz", "td", "fromtimestamp", "timestamp", "sub", "now",
    "xmltext", "encode", "decode", "slice", "char", "millis", "local", "astimezone", "title", "capitalize",
    "mktime", "timetuple", "dtsub", "reversed", "casefold", "isoformat", "concat", "fmt", "min", "max",
    "joinpath", "swapcase", "recode", "uuid.version", "part",
}


def app(op, args, kind="any", taint=None):
    args = tuple(args)
    k = (op, kind, tuple(_key(a) for a in args))
    r = _table.get(k)
    if r is None:
        r = App()
        r.op, r.args, r.kind = op, args, kind
        r.taint = (op not in KNOWN if taint is None else taint) or any(tainted(a) for a in args)
        _table[k] = r
    return r


class Run(Val):
    """`width` decimal digits of the integer term `term`, zero padded."""
    __slots__ = ("term", "width", "kind")

    def __repr__(self):
        return "<%s:%02d>" % (show(self.term), self.width)


def run(term, width):
    if isinstance(term, int) and not isinstance(term, bool):
        return str(term).zfill(width)
    k = ("run", width, _key(term))
    r = _table.get(k)
    if r is None:
        r = Run()
        r.term, r.width, r.kind = term, width, "str"
        _table[k] = r
    return r


class AStr(Val):
    __slots__ = ("pieces", "kind")

    def __repr__(self):
        return "+".join(show(p) for p in self.pieces)


class Lin(Val):
    __slots__ = ("terms", "const", "kind")

    def __repr__(self):
        s = "+".join(("" if c == 1 else "%s*" % c) + show(t) for t, c in self.terms)
        return s + ("%+d" % self.const if self.const else "")


def show(v):
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    if isinstance(v, (Val,)):
        return repr(v)
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return repr(v)
    return getattr(v, "show", lambda: type(v).__name__)()


def tainted(v):
    if isinstance(v, App):
        return v.taint
    if isinstance(v, AStr):
        return any(tainted(p) for p in v.pieces)
    if isinstance(v, Run):
        return tainted(v.term)
    if isinstance(v, Lin):
        return any(tainted(t) for t, _ in v.terms)
    if isinstance(v, tuple):
        return any(tainted(t) for t in v)
    return False


OPAQUE = {"slice", "index", "find", "rfind", "rindex", "char", "reversed", "replace", "count"}


def opaque(v):
    """A condition on this term may be unsatisfiable for reasons the domain does not see."""
    if isinstance(v, App):
        return v.taint or v.op in OPAQUE or any(opaque(a) for a in v.args)
    if isinstance(v, AStr):
        return any(opaque(p) for p in v.pieces)
    if isinstance(v, Run):
        return opaque(v.term)
    if isinstance(v, Lin):
        return any(opaque(t) for t, _ in v.terms)
    if isinstance(v, tuple):
        return any(opaque(t) for t in v)
    return False


def is_const(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes))


def kind(v):
    if v is None:
        return "None"
    if isinstance(v, (Sym, App, Run, AStr, Lin)):
        return v.kind
    if is_const(v):
        return type(v).__name__
    return "obj"


def is_str(v):
    return isinstance(v, (str, AStr, Run)) or kind(v) == "str"


def is_num(v):
    return kind(v) in ("int", "float", "num", "bool")


# ---------------------------------------------------------------- linear terms
def lin_parts(v):
    if isinstance(v, bool):
        return {}, int(v)
    if isinstance(v, (int, float)):
        return {}, v
    if isinstance(v, Lin):
        return dict(v.terms), v.const
    return {v: 1}, 0


def mk_lin(terms, const):
    terms = {t: c for t, c in terms.items() if c != 0}
    if not terms:
        return const
    if const == 0 and len(terms) == 1:
        (t, c), = terms.items()
        if c == 1:
            return t
    items = tuple(sorted(terms.items(), key=lambda tc: (show(tc[0]), id(tc[0]))))
    k = ("lin", tuple((_key(t), c) for t, c in items), _key(const))
    r = _table.get(k)
    if r is None:
        r = Lin()
        r.terms, r.const = items, const
        r.kind = "int" if all(kind(t) in ("int", "bool") for t, _ in items) and isinstance(const, int) else "float"
        _table[k] = r
    return r


def lin_add(a, b, sb=1):
    ta, ca = lin_parts(a)
    tb, cb = lin_parts(b)
    out = dict(ta)
    for t, c in tb.items():
        out[t] = out.get(t, 0) + sb * c
    return mk_lin(out, ca + sb * cb)


def lin_scale(a, k):
    t, c = lin_parts(a)
    return mk_lin({x: y * k for x, y in t.items()}, c * k)


# ---------------------------------------------------------------------- strings
def pieces(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, AStr):
        return list(v.pieces)
    return [v]


def mk_str(ps):
    out = []
    for p in ps:
        if isinstance(p, AStr):
            q = list(p.pieces)
        else:
            q = [p]
        for x in q:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    k = ("astr",) + tuple(_key(p) for p in out)
    r = _table.get(k)
    if r is None:
        r = AStr()
        r.pieces = tuple(out)
        r.kind = "str"
        _table[k] = r
    return r


HEX = set("0123456789abcdefABCDEF-")


def excludes(atom, ch):
    """True when the atom certainly does not contain the character."""
    if isinstance(atom, str):
        return ch not in atom
    if isinstance(atom, Run):
        return not ch.isdigit()
    if isinstance(atom, Sym):
        if ch in atom.props.get("excl", ""):
            return True
        only = atom.props.get("only")
        return only is not None and ch not in only
    if isinstance(atom, App):
        if atom.op in ("strip", "lstrip", "rstrip", "slice", "char", "reversed"):
            return all(excludes(p, ch) for p in pieces(atom.args[0]))
        if atom.op == "attrnorm":
            return ch in "\t\n\r" or ch != " " and all(excludes(p, ch) for p in pieces(atom.args[0]))
        if atom.op == "replace" and isinstance(atom.args[2], str):
            return ch not in atom.args[2] and all(excludes(p, ch) for p in pieces(atom.args[0]))
        if atom.op in ("lower", "casefold"):
            if ch != ch.lower():
                return True
            return all(excludes(p, ch) and excludes(p, ch.upper()) for p in pieces(atom.args[0]))
        if atom.op == "upper":
            if ch != ch.upper():
                return True
            return all(excludes(p, ch) and excludes(p, ch.lower()) for p in pieces(atom.args[0]))
        if atom.op == "str":
            k = kind(atom.args[0])
            if k == "int":
                return not (ch.isdigit() or ch == "-")
            if k == "float":
                return ch not in "0123456789.-+einfa"
            if k == "uuid":
                return ch not in HEX
    return False


def atom_nonempty(atom):
    if isinstance(atom, str):
        return bool(atom)
    if isinstance(atom, Run):
        return atom.width > 0
    if isinstance(atom, Sym):
        return atom.props.get("nonempty")
    if isinstance(atom, App):
        if atom.op == "str":
            return True
        if atom.op in ("lower", "upper", "casefold", "title", "capitalize", "swapcase"):
            return str_nonempty(atom.args[0])
        if atom.op in ("geturl",):
            return True
        if atom.op == "strip":
            a = atom.args[0]
            if any(isinstance(p, str) and p.strip() for p in pieces(a)) or any(nonblank(p) for p in pieces(a)):
                return True
    return None


def nonblank(p):
    """The piece certainly contains a non-blank character."""
    if isinstance(p, str):
        return bool(p.strip())
    if isinstance(p, Sym):
        return bool(p.props.get("nonblank")) or (bool(p.props.get("nonempty")) and trim_ok(p))
    if isinstance(p, Run):
        return True
    if isinstance(p, App):
        if p.op in ("lower", "upper", "casefold", "strip", "title", "capitalize"):
            return any(nonblank(q) for q in pieces(p.args[0]))
        return p.op in ("str", "geturl")
    return False


def str_nonempty(v):
    vs = [atom_nonempty(p) for p in pieces(v)]
    if any(x is True for x in vs):
        return True
    if all(x is False for x in vs):
        return False
    return None


def trim_ok(atom):
    """No blank at either end (of a non-empty value)."""
    if isinstance(atom, Run):
        return True
    if isinstance(atom, Sym):
        return bool(atom.props.get("trimmed")) or all(excludes(atom, c) for c in " \t\n")
    if isinstance(atom, App):
        if atom.op in ("str", "strip", "geturl"):
            return True
        if atom.op in ("lower", "upper", "casefold"):
            ps = pieces(atom.args[0])
            return len(ps) == 1 and trim_ok(ps[0])
    return False


def atom_len(p):
    if isinstance(p, str):
        return len(p)
    if isinstance(p, Run):
        return p.width
    return app("len", (p,), "int")


def str_len(v):
    n = 0
    for p in pieces(v):
        n = lin_add(n, atom_len(p))
    return n


def cut_run(r, a, b):
    """Digits a..b of a run."""
    if a == 0 and b == r.width:
        return r
    t = r.term
    if b < r.width:
        t = floordiv(t, 10 ** (r.width - b))
    if a > 0:
        t = mod(t, 10 ** (b - a))
    return run(t, b - a)


def floordiv(a, b):
    if is_const(a) and is_const(b):
        return a // b
    if b == 1 and kind(a) == "int":
        return a
    if isinstance(b, int) and b > 0 and isinstance(a, App) and a.op == "floordiv" and isinstance(a.args[1], int) \
            and a.args[1] > 0:
        return floordiv(a.args[0], a.args[1] * b)
    if isinstance(b, int) and isinstance(a, Lin) and all(isinstance(c, int) and c % b == 0 for _, c in a.terms) \
            and isinstance(a.const, int) and a.const % b == 0:
        return mk_lin({t: c // b for t, c in a.terms}, a.const // b)
    return app("floordiv", (a, b), "int" if kind(a) == "int" and kind(b) == "int" else "float")


def mod(a, b):
    if is_const(a) and is_const(b):
        return a % b
    return app("mod", (a, b), "int" if kind(a) == "int" and kind(b) == "int" else "float")


def mul(a, b):
    if is_const(a) and is_const(b):
        return a * b
    if is_const(a) and is_num(a):
        return lin_scale(b, a)
    if is_const(b) and is_num(b):
        return lin_scale(a, b)
    x, y = sorted((a, b), key=show)
    return app("mul", (x, y), "int" if kind(a) == "int" and kind(b) == "int" else "float")


def lin_exact(v, g):
    """v / g for a linear term all of whose coefficients g divides."""
    terms, c = lin_parts(v)
    return mk_lin({t: k // g for t, k in terms.items()}, c // g)
