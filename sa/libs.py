"""Abstract semantics of the builtins and library modules the analysed code uses."""
import itertools as _it
import ast
import builtins as _pyb
import inspect
import re as _re
import string as _string

from .terms import (WS, App, AStr, Lin, Run, Sym, Val, app, atom_nonempty, cut_run, excludes, floordiv, is_const, is_num,
                    is_str, kind, lin_add, lin_parts, lin_scale, mk_lin, mk_str, mod, mul, nonblank, pieces, run, show,
                    str_len, str_nonempty, tainted, trim_ok)
from . import interp as _i


def _imp():
    return _i


# ------------------------------------------------------------------ text helpers
def find_in(I, s, sub, start_piece=0):
    """('at', k, off) leftmost occurrence | 'none' | 'unknown'."""
    ps = pieces(s)
    if not isinstance(sub, str):
        if any(p is sub for p in ps) and len(pieces(sub)) == 1:
            k = [i for i, p in enumerate(ps) if p is sub][0]
            if k == 0:
                return ("at", 0, 0)
        return "unknown"
    if sub == "":
        return ("at", 0, 0)
    for k, p in enumerate(ps):
        if isinstance(p, str):
            i = p.find(sub)
            # a match could start at the end of this literal and run into an atom
            if k + 1 < len(ps) and len(sub) > 1:
                for n in range(1, len(sub)):
                    if p.endswith(sub[:n]) and (i < 0 or len(p) - n < i):
                        m = spans(I, ps, k + 1, sub[n:])
                        if m is True:
                            return ("at", k, len(p) - n)
                        if m is None:
                            return "unknown"
            if i >= 0:
                return ("at", k, i)
        else:
            if not excludes(p, sub[0]):
                if isinstance(p, Run) and sub.isdigit() and not run_may(I, p, sub):
                    continue
                f = I.truth.get(("contains", p, sub))
                if f is False:
                    continue
                return "unknown"
    return "none"


def run_may(I, p, sub):
    return True


def spans(I, ps, k, rest):
    """Does the text from piece k on start with `rest`?  True / False / None."""
    if not rest:
        return True
    if k >= len(ps):
        return False
    p = ps[k]
    if isinstance(p, str):
        n = min(len(p), len(rest))
        if p[:n] != rest[:n]:
            return False
        return spans(I, ps, k + 1, rest[n:])
    if isinstance(p, Run):
        head, tail = rest[:p.width], rest[p.width:]
        if not all(c.isdigit() for c in head):
            return False
        t = spans(I, ps, k + 1, tail)
        if t is False:
            return False
        if len(head) == p.width:
            b = I.atom_bounds(p.term) if not is_const(p.term) else (p.term, p.term)
            v = int(head)
            if (b[0] is not None and v < b[0]) or (b[1] is not None and v > b[1]):
                return False
        return None
    if atom_nonempty(p) and excludes(p, rest[0]):
        return False
    return None


def str_contains(I, s, sub):
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    s, sub = I.norm(s), I.norm(sub)
    if s is sub or sub == "":
        return True
    r = find_in(I, s, sub)
    if r == "none":
        return False
    if r == "unknown":
        if isinstance(sub, str):
            ps = pieces(s)
            if any(isinstance(p, str) and sub in p for p in ps):
                return True
            atoms = [p for p in ps if not isinstance(p, str) and not excludes(p, sub[0])]
            if len(sub) == 1 and len(atoms) > 1:
                return any([I.branch(("contains", a, sub), "%r in %s" % (sub, show(a))) for a in atoms])
            if len(atoms) == 1:
                return I.branch(("contains", atoms[0], sub), "%r in %s" % (sub, show(atoms[0])))
        return I.branch(("contains", s, sub), "%s in %s" % (show(sub), show(s)))
    return True


def str_find(I, s, sub, raising):
    if isinstance(s, str) and isinstance(sub, str):
        i = s.find(sub)
    else:
        s = I.norm(s)
        r = find_in(I, s, sub)
        if r == "none":
            i = -1
        elif r == "unknown":
            if not str_contains(I, s, sub):
                i = -1
            else:
                return app("index", (s, sub), "int")
        else:
            i = r[2]
            for p in pieces(s)[:r[1]]:
                i = lin_add(i, str_len(p))
            return i
    if i == -1 and raising:
        raise I.exc("ValueError", "substring not found")
    return i


def rev_pieces(I, s):
    out = []
    for p in reversed(pieces(s)):
        if isinstance(p, str):
            out.append(p[::-1])
        elif isinstance(p, Run):
            out.extend(reversed([cut_run(p, i, i + 1) for i in range(p.width)]))
        elif isinstance(p, App) and p.op == "reversed":
            out.append(p.args[0])
        else:
            out.append(app("reversed", (p,), "str"))
    return out


def join_runs(s):
    """Put adjacent digits that came from one run back together."""
    ps = pieces(s)
    out = []
    for p in ps:
        if isinstance(p, Run) and out and isinstance(out[-1], Run):
            m = merge_runs(out[-1], p)
            if m is not None:
                out[-1] = m
                continue
        out.append(p)
    return mk_str(out)


def merge_runs(a, b):
    # a shows floordiv(t, 10^b.width) (maybe mod), b shows mod(t, 10^b.width)
    if isinstance(b.term, App) and b.term.op == "mod" and b.term.args[1] == 10 ** b.width:
        t = b.term.args[0]
        ta, wa = a.term, a.width
        if isinstance(ta, App) and ta.op == "mod" and ta.args[1] == 10 ** wa:
            if floordiv10(t, b.width) is ta.args[0]:
                return run(mod10(t, wa + b.width), wa + b.width)
        if floordiv10(t, b.width) is ta:
            return run(t, wa + b.width)
    return None


def floordiv10(t, n):
    return floordiv_chain(t, 10 ** n)


def floordiv_chain(t, k):
    # floordiv(floordiv(x,a),b) = floordiv(x,a*b)
    if isinstance(t, App) and t.op == "floordiv" and isinstance(t.args[1], int):
        return floordiv(t.args[0], t.args[1] * k)
    return floordiv(t, k)


def mod10(t, n):
    return mod(t, 10 ** n)


def cut_at(I, s, pos):
    """Split a text at a position given as a number or length term -> (left pieces, right pieces) or None."""
    ps = pieces(s)
    cum = 0
    for k, p in enumerate(ps):
        d = lin_add(pos, cum, -1)
        if isinstance(d, int):
            if d <= 0:
                if d == 0:
                    return ps[:k], ps[k:]
                return None
            if isinstance(p, str) and d <= len(p):
                return ps[:k] + [p[:d]], [p[d:]] + ps[k + 1:]
            if isinstance(p, Run) and d <= p.width:
                if d == p.width:
                    return ps[:k + 1], ps[k + 1:]
                return ps[:k] + [fix_run(p, 0, d)], [fix_run(p, d, p.width)] + ps[k + 1:]
        cum = lin_add(cum, str_len(p))
    d = lin_add(pos, cum, -1)
    if isinstance(d, int) and d >= 0:
        return ps, []
    return None


def fix_run(r, a, b):
    t = r.term
    if b < r.width:
        t = floordiv_chain(t, 10 ** (r.width - b))
    if a > 0:
        t = mod(t, 10 ** (b - a))
    return run(t, b - a)


def str_slice(I, s, sl):
    lo, up, st = (I.norm(sl.fields[n]) if isinstance(sl.fields[n], Val) else sl.fields[n] for n in ("lower", "upper", "step"))
    if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, up, st)):
        return s[lo:up:st]
    s = I.norm(s)
    if st == -1 and lo is None and up is None:
        return join_runs(mk_str(rev_pieces(I, s)))
    if st not in (None, 1):
        return app("slice", (s, lo, up, st), "str")
    if lo is None and up is None:
        return s
    total = str_len(s)

    def position(x):
        if isinstance(x, int) and x < 0:
            return lin_add(total, x)
        return x
    left, rest = [], pieces(s)
    if up is not None:
        c = cut_at(I, s, position(up))
        if c is None:
            neg = isinstance(up, int) and up < 0 and isinstance(total, int) and total + up <= 0
            if neg:
                return ""
            return app("slice", (s, lo, up), "str")
        rest = c[0]
    if lo is not None and lo != 0:
        p = position(lo)
        if isinstance(p, int) and p < 0 and isinstance(total, int):
            p = 0
        if p != 0:
            c = cut_at(I, mk_str(rest), p)
            if c is None:
                return app("slice", (s, lo, up), "str")
            rest = c[1]
    return mk_str(rest)


def str_index(I, s, i):
    if isinstance(s, str) and isinstance(i, int):
        try:
            return s[i]
        except IndexError:
            raise I.exc("IndexError", "string index out of range")
    s = I.norm(s)
    ps = pieces(s)
    n = str_len(s)
    if isinstance(i, int) and i < 0:
        tail = ps[-1] if ps else ""
        if isinstance(tail, str) and -i <= len(tail):
            return tail[i]
        if isinstance(tail, Run) and -i <= tail.width:
            return fix_run(tail, tail.width + i, tail.width + i + 1)
    elif isinstance(i, int):
        c = cut_at(I, s, i)
        if c is not None:
            if not c[1]:
                raise I.exc("IndexError", "string index out of range")
            h = c[1][0]
            if isinstance(h, str):
                return h[0]
            if isinstance(h, Run):
                return fix_run(h, 0, 1)
    if str_nonempty(s) is not True and not I.truthy(s):
        raise I.exc("IndexError", "string index out of range")
    return app("char", (s, i), "str")


def strip_(I, s, which, chars=None):
    ws = WS if chars is None else chars
    if isinstance(s, str):
        return getattr(s, which)(chars)
    if not isinstance(ws, str):
        return app(which, (s, ws), "str")
    ps = list(pieces(I.norm(s)))

    def clean(p, left):
        if chars is None:
            return trim_ok(p) and atom_nonempty(p) is True
        return all(excludes(p, c) for c in ws) and atom_nonempty(p) is True
    ok = True
    if which in ("strip", "lstrip"):
        while ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(ws)
            if ps[0]:
                break
            ps.pop(0)
        if ps and not isinstance(ps[0], str) and not clean(ps[0], True):
            ok = False
    if which in ("strip", "rstrip"):
        while ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(ws)
            if ps[-1]:
                break
            ps.pop()
        if ps and not isinstance(ps[-1], str) and not clean(ps[-1], False):
            ok = False
    t = mk_str(ps)
    if ok:
        return t
    if isinstance(t, App) and t.op == which and chars is None:
        return t
    if chars is None and len(pieces(t)) == 1 and trim_ok(t):
        return t           # empty or without blanks at its ends: stripping is the identity
    return app(which, (t,) if chars is None else (t, ws), "str")


def case_(I, s, which):
    if isinstance(s, str):
        return getattr(s, which)()
    out = []
    for p in pieces(I.norm(s)):
        if isinstance(p, str):
            out.append(getattr(p, which)())
        elif isinstance(p, Run):
            out.append(p)
        elif isinstance(p, Sym) and p.props.get("case") == which:
            out.append(p)
        elif isinstance(p, App) and p.op in ("lower", "upper", "casefold"):
            out.append(app(which, p.args, "str"))
        elif isinstance(p, App) and p.op == "str" and kind(p.args[0]) in ("int", "td"):
            out.append(p)
        elif isinstance(p, App) and p.op == "str" and kind(p.args[0]) == "uuid" and which == "lower":
            out.append(p)
        else:
            out.append(app(which, (p,), "str"))
    return mk_str(out)


def atoms_exclude(s, chars):
    return all(isinstance(p, str) or any(excludes(p, c) for c in chars[:1]) for p in pieces(s))


def replace_(I, s, a, b):
    if all(isinstance(x, str) for x in (s, a, b)):
        return s.replace(a, b)
    s = I.norm(s)
    if not isinstance(a, str) or a == "":
        return app("replace", (s, a, b), "str")
    out, rest = [], pieces(s)
    for _ in range(50):
        r = find_in(I, mk_str(rest), a)
        if r == "none":
            return mk_str(out + rest)
        if r == "unknown":
            if not out and not str_contains(I, s, a):
                return s
            return app("replace", (s, a, b), "str")
        ps = pieces(mk_str(rest))
        k, off = r[1], r[2]
        out = out + ps[:k] + [ps[k][:off]] + pieces(b)
        if off + len(a) > len(ps[k]):
            return app("replace", (s, a, b), "str")
        rest = [ps[k][off + len(a):]] + ps[k + 1:]
    raise I.undecided("replace")


def split_(I, s, sep=None, maxsplit=-1):
    if isinstance(s, str) and (sep is None or isinstance(sep, str)) and isinstance(maxsplit, int):
        return list(s.split(sep, maxsplit))
    s = I.norm(s)
    if sep is not None and isinstance(sep, str) and len(sep) == 1 or sep is None:
        # a text whose atoms may hold the separator: separate the case where none does
        chars = WS if sep is None else sep
        for p in pieces(s):
            if not isinstance(p, str):
                for c in chars:
                    if not excludes(p, c) and I.truth.get(("contains", p, c)) is not False:
                        if sep is None:
                            raise I.undecided("splitting %s at blanks" % show(p))
                        if I.branch(("contains", p, c), "%r in %s" % (c, show(p))):
                            if maxsplit == 1 and sep is not None and pieces(s) == [p]:
                                # two parts, before and after the first place of it
                                at = app("index", (s, sep), "int")
                                return [app("slice", (s, None, at), "str"), app("slice", (s, lin_add(at, 1), None), "str")]
                            raise I.undecided("splitting %s at %r" % (show(p), c))
    elif not isinstance(sep, str) or find_in(I, s, sep) == "unknown":
        if isinstance(sep, str) and not str_contains(I, s, sep):
            return [s]
        raise I.undecided("splitting %s at %s" % (show(s), show(sep)))
    return [decode_skel(x, t) for x in encode_skel(s)[0].split(sep, maxsplit) for t in (encode_skel(s)[1],)]


def encode_skel(s):
    """Literal skeleton of a text: every atom becomes one private character."""
    table, out = {}, []
    for i, p in enumerate(pieces(s)):
        if isinstance(p, str):
            out.append(p)
        else:
            c = chr(0xE000 + i)
            table[c] = p
            out.append(c)
    return "".join(out), table


def decode_skel(x, table):
    out = []
    for ch in x:
        out.append(table.get(ch, ch))
    return mk_str(out)


def join_(I, sep, items):
    out = []
    for i, x in enumerate(items):
        if not is_str(x):
            if isinstance(x, Val) and kind(x) == "any":
                raise I.undecided("joining an unknown value")
            raise I.exc("TypeError", "sequence item %d: expected str instance" % i)
        if i:
            out.extend(pieces(sep))
        out.extend(pieces(x))
    return mk_str(out)


def startswith_(I, s, pre, end=False):
    _i = _imp()
    if isinstance(pre, _i.Obj):
        return any(startswith_(I, s, x, end) for x in pre.payload)
    s, pre = I.norm(s), I.norm(pre)
    if isinstance(s, str) and isinstance(pre, str):
        return s.endswith(pre) if end else s.startswith(pre)
    if not is_str(pre):
        raise I.exc("TypeError", "startswith first arg must be str")
    ps, qs = pieces(s), pieces(pre)
    if end:
        ps = [p[::-1] if isinstance(p, str) else p for p in reversed(ps)]
        qs = [p[::-1] if isinstance(p, str) else p for p in reversed(qs)]
    ps, qs = list(ps), list(qs)
    while ps and qs:
        p, q = ps[0], qs[0]
        if p is q:
            ps.pop(0)
            qs.pop(0)
            continue
        if isinstance(p, str) and isinstance(q, str):
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return False
            ps[0], qs[0] = p[n:], q[n:]
            if not ps[0]:
                ps.pop(0)
            if not qs[0]:
                qs.pop(0)
            continue
        if isinstance(q, str) and atom_nonempty(p) and excludes(p, q[0]):
            return False
        if isinstance(p, str) and atom_nonempty(q) and excludes(q, p[0]):
            return False
        if isinstance(p, Run) and isinstance(q, str):
            head = q[:p.width]
            if not head.isdigit():
                return False
            if len(head) == p.width:
                if not I.eq(p.term, int(head[::-1] if end else head)):
                    return False
                ps.pop(0)
                qs[0] = q[p.width:]
                if not qs[0]:
                    qs.pop(0)
                continue
        break
    if not qs:
        return True
    if not ps:
        if str_nonempty(mk_str(qs)):
            return False
    op = "endswith" if end else "startswith"
    return I.branch((op, s, pre), "%s.%s(%s)" % (show(s), op, show(pre)))


# -------------------------------------------------------------------- formatting
def repr_(I, v):
    if is_const(v):
        return repr(v)
    _i = _imp()
    if isinstance(v, _i.Obj):
        m = I.user(v, "__repr__")
        if m is not None:
            return I.call(m, [])
    return app("repr", (v if isinstance(v, Val) else show(v),), "str", taint=True)


def format_(I, v, spec):
    if not isinstance(spec, str):
        raise I.undecided("computed format spec")
    if spec in ("", "s"):
        return I.to_str(v)
    if is_const(v):
        try:
            return format(v, spec)
        except (ValueError, TypeError):
            raise I.exc("ValueError", "format")
    if kind(v) == "dt":
        return strftime(I, v, spec)
    m = _re.fullmatch(r"0?(\d+)d?|0>(\d+)", spec)
    v = I.norm(v)
    if m and kind(v) in ("int", "num") and (spec.startswith("0")):
        w = int(m.group(1) or m.group(2))
        return run_of(I, v, w)
    if spec == "d" and kind(v) == "int":
        return I.to_str(v)
    return app("fmt", (v if isinstance(v, Val) else show(v), spec), "str", taint=True)


def run_of(I, v, w):
    lo, hi = (I.atom_bounds(v)[:2]) if not is_const(v) else (v, v)
    if isinstance(v, Lin):
        lo = hi = 0
        for t, c in v.terms:
            a, b = I.atom_bounds(t)[:2]
            if c < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        lo = None if lo is None else lo + v.const
        hi = None if hi is None else hi + v.const
    if lo is None or hi is None or lo < 0 or hi >= 10 ** w:
        return app("fmt", (v, w), "str", taint=True)
    return run(v, w)


def str_format(I, s, args, kw):
    if not isinstance(s, str):
        raise I.undecided("computed format string")
    out, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        m = _re.match(r"([^.\[]*)(.*)", field)
        base, rest = m.group(1), m.group(2)
        if base == "":
            base = str(auto)
            auto += 1
        if base.isdigit():
            if int(base) >= len(args):
                raise I.exc("IndexError", "Replacement index out of range")
            v = args[int(base)]
        else:
            if base not in kw:
                raise I.exc("KeyError", base)
            v = kw[base]
        for t in _re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            v = I.getattr(v, t[0]) if t[0] else I.getitem(v, int(t[1]) if t[1].isdigit() else t[1])
        if conv == "r":
            v = repr_(I, v)
        elif conv == "s":
            v = I.to_str(v)
        if spec and "{" in spec:
            spec = str_format(I, spec, args[auto:], kw)
        out.extend(pieces(format_(I, v, spec or "")))
    return mk_str(out)


def percent(I, s, arg):
    _i = _imp()
    if not isinstance(s, str):
        raise I.undecided("computed format string")
    args = list(arg.payload) if isinstance(arg, _i.Obj) and I.base_of(arg) == "tuple" else [arg]
    out, n = [], 0
    pos = 0
    for m in _re.finditer(r"%(?:\((\w+)\))?([0-9.+-]*)([sdrf%i])", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(3) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = I.dict_get(arg, m.group(1))
        else:
            if n >= len(args):
                raise I.exc("TypeError", "not enough arguments for format string")
            v = args[n]
            n += 1
        if m.group(3) == "s":
            out.extend(pieces(I.to_str(v)))
        elif m.group(3) == "r":
            out.extend(pieces(repr_(I, v)))
        else:
            sp = m.group(2)
            out.extend(pieces(format_(I, v, sp + ("" if m.group(3) in "di" else m.group(3)) if sp else "")))
    out.append(s[pos:])
    return mk_str(out)


# --------------------------------------------------------------------- arithmetic
def binop(I, op, a, b):
    _i = _imp()
    if isinstance(a, Val):
        a = I.norm(a)
    if isinstance(b, Val):
        b = I.norm(b)
    names = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
             ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor", ast.Pow: "pow", ast.LShift: "lshift",
             ast.RShift: "rshift"}
    n = names.get(type(op), "?")
    if isinstance(a, (_i.Obj, _i.Cls)) or isinstance(b, (_i.Obj, _i.Cls)):
        m = I.user(a, "__%s__" % n)
        if m is not None:
            return I.call(m, [b])
        m = I.user(b, "__r%s__" % n)
        if m is not None:
            return I.call(m, [a])
        ba, bb = I.base_of(a), I.base_of(b)
        if n == "add" and ba in ("list", "tuple") and ba == bb:
            r = I.new(ba, list(a.payload) + list(b.payload))
            return r
        if n == "mul" and ba in ("list", "tuple") and isinstance(b, int):
            return I.new(ba, list(a.payload) * b)
        if n == "or" and ba in ("set", "dictview") and bb in ("set", "dictview"):
            return I.mkset(I.contents(a) + I.contents(b))
        if n == "or" and ba == "dict" and bb == "dict":
            return I.mkdict([tuple(e) for e in a.payload] + [tuple(e) for e in b.payload])
        if n == "and" and ba in ("set", "dictview") and bb in ("set", "dictview"):
            return I.mkset([x for x in I.contents(a) if I.contains(b, x)])
        if n == "sub" and ba in ("set", "dictview") and bb in ("set", "dictview"):
            return I.mkset([x for x in I.contents(a) if not I.contains(b, x)])
        if n == "xor" and ba in ("set", "dictview") and bb in ("set", "dictview"):
            x, y = I.contents(a), I.contents(b)
            return I.mkset([v for v in x if not I.contains(b, v)] + [v for v in y if not I.contains(a, v)])
        if n == "mul" and bb in ("list", "tuple") and isinstance(a, int):
            return I.new(bb, list(b.payload) * a)
        if n == "mod" and is_str(a):
            return percent(I, a, b)
        if n == "or" and isinstance(a, _i.Cls) and isinstance(b, _i.Cls):
            return I.mktuple([a, b])
        if any(isinstance(x, Val) and kind(x) == "any" for x in (a, b)):
            raise I.undecided("operator on unknown value")
        raise I.exc("TypeError", "unsupported operand %s" % n)
    if is_const(a) and is_const(b):
        import operator
        f = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv,
             "floordiv": operator.floordiv, "mod": operator.mod, "or": operator.or_, "and": operator.and_,
             "xor": operator.xor, "pow": operator.pow, "lshift": operator.lshift, "rshift": operator.rshift}.get(n)
        try:
            return f(a, b)
        except TypeError:
            raise I.exc("TypeError", "unsupported operand type(s) for %s" % n)
        except ZeroDivisionError:
            raise I.exc("ZeroDivisionError", "division by zero")
        except (OverflowError, ValueError) as e:
            raise I.undecided(str(e))
    sa, sb = is_str(a), is_str(b)
    if n == "mod" and sa:
        return percent(I, a, b)
    if n == "add" and sa and sb:
        return mk_str(pieces(a) + pieces(b))
    ka, kb = kind(a), kind(b)
    if "any" in (ka, kb):
        return app("op." + n, (a, b), "any", taint=True)
    if sa or sb or a is None or b is None:
        if n == "mul" and (isinstance(a, int) or isinstance(b, int)) and (sa or sb):
            s_, k_ = (a, b) if sa else (b, a)
            return mk_str(pieces(s_) * max(k_, 0))
        raise I.exc("TypeError", "unsupported operand type(s) for %s" % n)
    if "dt" in (ka, kb) or "td" in (ka, kb):
        if n == "sub" and ka == "dt" and kb == "dt":
            x, y = I.dt_concrete(a), I.dt_concrete(b)
            if x is not None and y is not None and (x.tzinfo is None) == (y.tzinfo is None) and (x - y).microseconds == 0:
                return app("td", (int((x - y).total_seconds()),), "td")
            return app("dtsub", (a, b), "td")
        if n in ("add", "sub") and {ka, kb} == {"dt", "td"} and (n == "add" or ka == "dt"):
            d, t = (a, b) if ka == "dt" else (b, a)
            if isinstance(d, App) and d.op == "dt.make" and all(isinstance(p, int) for p in d.args[:7]) \
                    and isinstance(t, App) and t.op == "td" and isinstance(t.args[0], int):
                import datetime as D
                try:  # wall clock arithmetic: the zone stays
                    x = D.datetime(*d.args[:7]) + D.timedelta(seconds=t.args[0] if n == "add" else -t.args[0])
                except (ValueError, OverflowError):
                    raise I.exc("OverflowError", "date value out of range")
                return app("dt.make", tuple(getattr(x, f) for f in PARTS) + (d.args[7],), "dt")
        if n in ("add", "sub") and ka == "td" and kb == "td":
            return app("td", (lin_add(a.args[0], b.args[0], 1 if n == "add" else -1),), "td")
        if n == "mul" and "td" in (ka, kb):
            t, k_ = (a, b) if ka == "td" else (b, a)
            return app("td", (mul(t.args[0], k_),), "td")
        if "dt" in (ka, kb) and (n not in ("add", "sub") or "td" not in (ka, kb) or n == "sub" and kb == "dt"):
            raise I.exc("TypeError", "unsupported operand type(s) for %s" % n)    # only a duration can be added to a date
        return app("op." + n, (a, b), "dt" if "dt" in (ka, kb) else "td", taint=True)
    if n == "add":
        return lin_add(a, b)
    if n == "sub":
        return lin_add(a, b, -1)
    if n == "mul":
        return mul(a, b)
    if n == "floordiv":
        if is_const(b) and b == 0 or not is_const(b) and I.sign(b, "divisor", ask="eq") == 0:
            raise I.exc("ZeroDivisionError", "division by zero")
        return floordiv(a, b)
    if n == "mod":
        if is_const(b) and b == 0 or not is_const(b) and I.sign(b, "divisor", ask="eq") == 0:
            raise I.exc("ZeroDivisionError", "division by zero")
        return mod(a, b)
    if n == "truediv":
        if is_const(b) and b == 0 or not is_const(b) and I.sign(b, "divisor", ask="eq") == 0:
            raise I.exc("ZeroDivisionError", "division by zero")
        return divide(a, b)
    return app("op." + n, (a, b), "any", taint=True)


def divide(a, b):
    if is_const(b):
        t, c = lin_parts(a)
        if len(t) == 1 and c == 0:
            (x, k), = t.items()
            if k == b:
                return x
            if isinstance(x, App) and x.op == "div" and is_const(x.args[1]):
                return app("div", (x.args[0], x.args[1] * b / k), "float")
            if k != 1:
                return app("div", (x, float(b) / k), "float")
            return app("div", (x, float(b)), "float")
    return app("div", (a, float(b) if is_const(b) else b), "float")


# ---------------------------------------------------------------------- timestamps
PARTS = ("year", "month", "day", "hour", "minute", "second", "microsecond")
BOUNDS = {"dt.year": (1, 9999), "dt.month": (1, 12), "dt.day": (1, 31), "dt.hour": (0, 23), "dt.minute": (0, 59),
          "dt.second": (0, 59), "dt.microsecond": (0, 999999)}


def dt_part(v, part):
    if isinstance(v, App):
        if v.op == "dt.make":
            return v.args[PARTS.index(part)]
        if v.op == "dt.ms":
            if part == "microsecond":
                return lin_scale(floordiv(dt_part(v.args[0], part), 1000), 1000)
            return dt_part(v.args[0], part)
        if v.op == "dt.s":
            return 0 if part == "microsecond" else dt_part(v.args[0], part)
    return app("dt." + part, (v,), "int")


def dt_tz(I, v):
    if isinstance(v, Sym):
        if "tz" not in v.props:
            raise I.undecided("time zone of %s" % show(v))
        return v.props["tz"]
    if isinstance(v, App):
        if v.op == "dt.make":
            return v.args[7]
        if v.op in ("dt.ms", "dt.s"):
            return dt_tz(I, v.args[0])
        if v.op in ("fromtimestamp", "local"):
            return v.args[1] if len(v.args) > 1 else None
        if v.op == "now":
            return v.args[0] if v.args else None
        if v.op == "astimezone":
            return v.args[1]
    raise I.undecided("time zone of %s" % show(v))


def mk_dt(I, parts, tz):
    y = parts[0]
    for n, p in zip(PARTS, parts):
        lo, hi = BOUNDS["dt." + n]
        if isinstance(p, int) and not lo <= p <= hi:
            raise I.exc("ValueError", "%s must be in %d..%d" % (n, lo, hi))
    if all(isinstance(p, int) for p in parts[:3]):
        import calendar
        if parts[2] > calendar.monthrange(y, parts[1])[1]:
            raise I.exc("ValueError", "day is out of range for month")
    if isinstance(y, App) and y.op == "dt.year":
        x = y.args[0]
        if all(parts[i] is dt_part(x, PARTS[i]) for i in range(6)):
            try:
                same = dt_tz(I, x) is tz
            except Exception:
                same = False
            if same:
                us = parts[6]
                if us is dt_part(x, "microsecond"):
                    return x
                if us is lin_scale(floordiv(dt_part(x, "microsecond"), 1000), 1000):
                    return app("dt.ms", (x,), "dt")
                if isinstance(us, int) and us == 0:
                    return app("dt.s", (x,), "dt")
    return app("dt.make", tuple(parts) + (tz,), "dt")


def offset_parts(I, minutes):
    """(sign text, hours term, minutes term) of a UTC offset."""
    if isinstance(minutes, int):
        s = "-" if minutes < 0 else "+"
        return s, abs(minutes) // 60, abs(minutes) % 60
    t, c = lin_parts(minutes)
    if c == 0 and len(t) == 2:
        big = [x for x, k in t.items() if abs(k) == 60]
        small = [x for x, k in t.items() if abs(k) == 1]
        if big and small and t[big[0]] * t[small[0]] > 0:
            return ("+" if t[big[0]] > 0 else "-"), big[0], small[0]
    if c == 0 and len(t) == 1:
        (x, k), = t.items()
        if abs(k) == 60:
            if I.eq(x, 0):
                return "+", 0, 0
            return ("+" if k > 0 else "-"), x, 0
        if abs(k) == 1 and I.bounds.get(x, (None, 99))[1] is not None and I.bounds.get(x, (None, 99))[1] < 60:
            if I.eq(x, 0):
                return "+", 0, 0
            return ("+" if k > 0 else "-"), 0, x
    raise I.undecided("UTC offset %s" % show(minutes))


def tz_minutes(I, tz):
    if isinstance(tz, App) and tz.op == "tz":
        return tz.args[0]
    if isinstance(tz, Sym):
        return tz.props["minutes"]
    raise I.undecided("offset of %s" % show(tz))


def offset_text(I, minutes, colon=":"):
    s, h, m = offset_parts(I, minutes)
    return [s, run(h, 2), colon, run(m, 2)]


def tzname(I, tz):
    if isinstance(tz, Sym):
        return tz.props["name"]
    m = tz_minutes(I, tz)
    if isinstance(m, int) and m == 0:
        return "UTC"
    return mk_str(["UTC"] + offset_text(I, m))


def dt_iso(I, v, sep="T", timespec="auto"):
    p = [dt_part(v, x) for x in PARTS]
    out = [run(p[0], 4), "-", run(p[1], 2), "-", run(p[2], 2), sep, run(p[3], 2), ":", run(p[4], 2), ":", run(p[5], 2)]
    if timespec == "milliseconds":
        out += [".", run(floordiv(p[6], 1000), 3)]
    elif timespec == "microseconds":
        out += [".", run(p[6], 6)]
    elif timespec == "auto":
        if I.eq(p[6], 0) is False:
            out += [".", run(p[6], 6)]
    elif timespec != "seconds":
        raise I.undecided("timespec")
    tz = dt_tz(I, v)
    if tz is not None:
        out += offset_text(I, tz_minutes(I, tz))
    return mk_str(out)


def dt_str(I, v):
    try:
        return dt_iso(I, v, " ")
    except _i.Undecided:
        return app("isoformat", (v,), "str")


def strftime(I, v, fmt):
    if not isinstance(fmt, str):
        raise I.undecided("computed strftime format")
    out, i = [], 0
    p = {x: dt_part(v, x) for x in PARTS}
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d == "Y":
            out.append(run(p["year"], 4))
        elif d in "mdHMS":
            out.append(run(p[{"m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second"}[d]], 2))
        elif d == "f":
            out.append(run(p["microsecond"], 6))
        elif d == "z":
            tz = dt_tz(I, v)
            if tz is not None:
                out += offset_text(I, tz_minutes(I, tz), "")
        elif d == "Z":
            tz = dt_tz(I, v)
            if tz is not None:
                out += pieces(tzname(I, tz))
        elif d == "T":
            out += [run(p["hour"], 2), ":", run(p["minute"], 2), ":", run(p["second"], 2)]
        elif d == "F":
            out += [run(p["year"], 4), "-", run(p["month"], 2), "-", run(p["day"], 2)]
        elif d == "%":
            out.append("%")
        else:
            raise I.undecided("strftime %" + d)
    return mk_str(out)


class _NoMatch(Exception):
    pass


def bounded(I, t):
    try:
        lo, hi = I.atom_bounds(t)[:2]
    except Exception:
        return False
    return lo is not None and hi is not None and 0 <= lo and hi < 10 ** 7


class _Reader:
    """Consumes a text made of literals and digit runs."""

    def __init__(self, I, s):
        self.I, self.ps = I, list(pieces(join_runs(I.norm(s))))

    def empty(self):
        return not self.ps

    def peek(self):
        if not self.ps:
            return None
        p = self.ps[0]
        if isinstance(p, str):
            return p[0]
        if isinstance(p, Run) or isinstance(p, App) and p.op == "str" and kind(p.args[0]) == "int" and bounded(self.I, p.args[0]):
            return "9"
        if isinstance(p, (Sym, App)) and all(excludes(p, c) for c in "0123456789"):
            raise _NoMatch()
        raise self.I.undecided("reading a timestamp out of %s" % show(p))

    def lit(self, ch):
        if self.peek() != ch or not isinstance(self.ps[0], str):
            raise _NoMatch()
        self.ps[0] = self.ps[0][1:]
        if not self.ps[0]:
            self.ps.pop(0)

    def digits(self, lo, hi):
        """(term, width) of the next lo..hi digits."""
        got = []
        n = 0
        while n < hi and self.ps:
            p = self.ps[0]
            if isinstance(p, str):
                if not p[0].isdigit():
                    break
                got.append(p[0])
                n += 1
                self.ps[0] = p[1:]
                if not self.ps[0]:
                    self.ps.pop(0)
            elif isinstance(p, Run):
                if p.width <= hi - n:
                    got.append(p)
                    n += p.width
                    self.ps.pop(0)
                else:
                    k = hi - n
                    got.append(fix_run(p, 0, k))
                    self.ps[0] = fix_run(p, k, p.width)
                    n += k
            elif isinstance(p, App) and p.op == "str" and kind(p.args[0]) == "int" and bounded(self.I, p.args[0]):
                # a number of unknown width: one trace per width
                w = 1
                while self.I.compare(ast.GtE(), p.args[0], 10 ** w):
                    w += 1
                self.ps[0] = run(p.args[0], w)
            else:
                self.peek()
        if n < lo:
            raise _NoMatch()
        s = join_runs(mk_str(got))
        return to_int_digits(self.I, s), n


def to_int_digits(I, s):
    if isinstance(s, str):
        return int(s)
    if isinstance(s, Run):
        return s.term
    total = 0
    for p in pieces(s):
        w = len(p) if isinstance(p, str) else p.width
        v = int(p) if isinstance(p, str) else p.term
        total = lin_add(lin_scale(total, 10 ** w), v)
    return total


def strptime(I, s, fmt):
    if not isinstance(fmt, str):
        raise I.undecided("computed strptime format")
    r = _Reader(I, s)
    v = {"year": 1900, "month": 1, "day": 1, "hour": 0, "minute": 0, "second": 0, "microsecond": 0}
    tz = None
    i = 0
    try:
        while i < len(fmt):
            c = fmt[i]
            if c != "%":
                r.lit(c)
                i += 1
                continue
            d = fmt[i + 1]
            i += 2
            if d == "Y":
                v["year"], _ = r.digits(4, 4)
            elif d in "mdHMS":
                v[{"m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second"}[d]], _ = r.digits(1, 2)
            elif d == "f":
                t, n = r.digits(1, 6)
                v["microsecond"] = lin_scale(t, 10 ** (6 - n))
            elif d == "z":
                tz = read_offset(I, r)
            elif d == "%":
                r.lit("%")
            else:
                raise I.undecided("strptime %" + d)
        if not r.empty():
            raise _NoMatch()
    except _NoMatch:
        raise I.exc("ValueError", "time data does not match format")
    return mk_dt(I, [v[p] for p in PARTS], tz)


def read_offset(I, r):
    c = r.peek()
    if c == "Z":
        r.lit("Z")
        return app("tz", (0,), "tz")
    if c not in ("+", "-"):
        raise _NoMatch()
    r.lit(c)
    h, _ = r.digits(2, 2)
    if r.peek() == ":":
        r.lit(":")
    m, _ = r.digits(2, 2)
    tot = lin_add(lin_scale(h, 60), m)
    return app("tz", (lin_scale(tot, -1) if c == "-" else tot,), "tz")


def fromisoformat(I, s):
    r = _Reader(I, s)
    try:
        y, _ = r.digits(4, 4)
        r.lit("-")
        mo, _ = r.digits(2, 2)
        r.lit("-")
        d, _ = r.digits(2, 2)
        h = mi = se = us = 0
        tz = None
        if not r.empty():
            c = r.peek()
            if not isinstance(r.ps[0], str):
                raise _NoMatch()
            r.lit(c)
            h, _ = r.digits(2, 2)
            r.lit(":")
            mi, _ = r.digits(2, 2)
            if r.peek() == ":":
                r.lit(":")
                se, _ = r.digits(2, 2)
                if r.peek() in (".", ","):
                    r.lit(r.peek())
                    us, n = r.digits(1, 6)
                    us = lin_scale(us, 10 ** (6 - n))
                    if n == 6 and r.peek() == "9":
                        r.digits(1, 50)
            if not r.empty():
                tz = read_offset(I, r)
        if not r.empty():
            raise _NoMatch()
    except _NoMatch:
        raise I.exc("ValueError", "Invalid isoformat string")
    return mk_dt(I, [y, mo, d, h, mi, se, us], tz)


def to_int(I, v, base=10):
    _i = _imp()
    if isinstance(v, _i.Obj):
        m = I.user(v, "__int__")
        if m is not None:
            return I.call(m, [])
        raise I.exc("TypeError", "int() argument must be a number")
    v = I.norm(v)
    if v is None:
        raise I.exc("TypeError", "int() argument must be a string or a number")
    if is_const(v):
        try:
            return int(v)
        except (ValueError, OverflowError):
            raise I.exc("ValueError", "invalid literal for int()")
    k = kind(v)
    if k in ("int", "bool"):
        return v
    if k in ("float", "num"):
        return app("int", (v,), "int")
    if k == "str":
        ps = pieces(join_runs(strip_(I, v, "strip")))
        if len(ps) == 1 and isinstance(ps[0], App) and ps[0].op == "str" and kind(ps[0].args[0]) == "int":
            return ps[0].args[0]
        if len(ps) == 1 and isinstance(ps[0], App) and ps[0].op == "str" and kind(ps[0].args[0]) == "float":
            raise I.exc("ValueError", "invalid literal for int()")
        sign = 1
        if ps and isinstance(ps[0], str) and ps[0][0] in "+-":
            sign = -1 if ps[0][0] == "-" else 1
            ps = ([ps[0][1:]] if ps[0][1:] else []) + ps[1:]
        if ps and all(isinstance(p, Run) or isinstance(p, str) and p.isdigit() for p in ps):
            return lin_scale(to_int_digits(I, mk_str(ps)), sign)
        if any(isinstance(p, str) and _re.search(r"[^0-9\s_+-]", p) for p in ps):
            raise I.exc("ValueError", "invalid literal for int()")
        if any(isinstance(p, Sym) and p.props.get("notnum") for p in ps):
            raise I.exc("ValueError", "invalid literal for int()")
        return app("int", (v,), "int")
    if k == "uuid":
        return app("uuidint", (v,), "int") if uuid_text(v) is None else int(v.args[0].replace("-", ""), 16)
    return app("int", (v,), "int", taint=True)


def to_float(I, v):
    _i = _imp()
    if isinstance(v, _i.Obj):
        m = I.user(v, "__float__")
        if m is not None:
            return I.call(m, [])
        raise I.exc("TypeError", "float() argument must be a number")
    v = I.norm(v)
    if v is None:
        raise I.exc("TypeError", "float() argument must be a string or a number")
    if is_const(v):
        try:
            return float(v)
        except ValueError:
            raise I.exc("ValueError", "could not convert string to float")
    k = kind(v)
    if k in ("float", "num"):
        return v
    if k in ("int", "bool"):
        return app("float", (v,), "float")
    if k == "str":
        ps = pieces(strip_(I, v, "strip"))
        if len(ps) == 1 and isinstance(ps[0], App) and ps[0].op == "str":
            x = ps[0].args[0]
            if kind(x) == "float":
                return x
            if kind(x) == "int":
                return app("float", (x,), "float")
        if any(isinstance(p, Sym) and p.props.get("notnum") for p in ps):
            raise I.exc("ValueError", "could not convert string to float")
        return app("float", (v,), "float")
    return app("float", (v,), "float", taint=True)


def uuid_text(u):
    """The text of a UUID known in full, else None."""
    return u.args[0] if isinstance(u, App) and u.op == "uuid" and isinstance(u.args[0], str) else None


def to_uuid(I, v):
    v = I.norm(v)
    if isinstance(v, Val):
        t = v
        while isinstance(t, App) and t.op in ("upper", "lower", "strip"):
            t = t.args[0]
        if isinstance(t, App) and t.op == "str" and kind(t.args[0]) == "uuid":
            return t.args[0]
        if is_str(v):
            if any(isinstance(p, Sym) and p.props.get("notuuid") for p in pieces(v)):
                raise I.exc("ValueError", "badly formed hexadecimal UUID string")
            return app("uuid", (t,), "uuid")
        if kind(v) == "uuid":
            raise I.exc("AttributeError", "'UUID' object has no attribute 'replace'")
    if isinstance(v, str):
        import uuid
        try:
            v = str(uuid.UUID(v))
        except ValueError:
            raise I.exc("ValueError", "badly formed hexadecimal UUID string")
        return app("uuid", (v,), "uuid")
    raise I.exc("TypeError", "UUID() argument")


# ----------------------------------------------------------------- builtin methods
METHODS = {}


def meth(cls, *names):
    def deco(f):
        for n in names:
            METHODS.setdefault(cls, {})[n] = f
        return f
    return deco


def has_method(I, k, name):
    return name in METHODS.get(k.name, {}) or name in ("__init__", "__new__") or (k.name, name) in STATIC


STATIC = {}


def static_method(I, k, name):
    _i = _imp()
    f = STATIC.get((k.name, name))
    if f is not None:
        return _i.Builtin(k.name + "." + name, f)
    if name == "__new__":
        return _i.Builtin("__new__", lambda I, a, kw: new_of(I, a[0], a[1:], kw))
    return None


def new_class(I, meta, args, kw):
    name, bases, ns = args
    module, node = I.making or (None, None)
    return I.build_class(name, list(bases.payload) or [I.cls["object"]], {a: b for a, b in ns.payload}, meta, module, node, kw)


def const_call(f):
    """A method of a constant on constants."""
    def run_(I, a, k):
        if not all(is_const(x) for x in list(a) + list(k.values())):
            raise I.undecided("%s of a value that is not constant" % getattr(f, "__name__", "call"))
        try:
            r = f(*a, **k)
        except Exception as e:
            if type(e).__name__ in I.cls:
                raise I.exc(type(e).__name__, str(e))
            raise
        return lift(I, r)
    return run_


def lift(I, r):
    if isinstance(r, (list, tuple)):
        return (I.mklist if isinstance(r, list) else I.mktuple)([lift(I, x) for x in r])
    if r is None or isinstance(r, (str, int, float, bytes, bool)):
        return r
    raise I.undecided("a %s" % type(r).__name__)


def new_of(I, c, a, kw):
    if c.builtin:
        return construct(I, c, a, kw)
    if c.issub(I.cls["type"]):
        return new_class(I, c, a, kw)
    o = I.allocate(c)
    if c.issub(I.cls["tuple"]) and a:
        o.payload = list(I.iterate(a[0]))
    return o


VALUE_CLASSES = {"dt": "datetime", "uuid": "UUID", "td": "timedelta", "tz": "timezone", "num": "float", "uri": "ParseResult"}


_SIGS = {}


def host_sig(cls, name):
    """The signature CPython documents for a method of a builtin type (without self), if it does."""
    if (cls, name) not in _SIGS:
        t = {"str": str, "bytes": bytes, "list": list, "dict": dict, "set": set, "tuple": tuple, "frozenset": frozenset,
             "int": int, "float": float}.get(cls)
        if cls == "Element":
            from xml.etree.ElementTree import _Element_Py as t
        elif cls in ("Document", "DomNode"):
            from xml.dom.minidom import Document as t
        elif cls in ("ContentHandler", "AttrImpl"):
            import xml.sax.xmlreader
            t = xml.sax.handler.ContentHandler if cls == "ContentHandler" else xml.sax.xmlreader.AttributesImpl
        _SIGS[cls, name] = None
        m = getattr(t, name, None) if t else None
        if callable(m) and not (cls, name) in STATIC:
            try:
                s = inspect.signature(m)
                _SIGS[cls, name] = s.replace(parameters=list(s.parameters.values())[1:])
            except (ValueError, TypeError):
                pass
    return _SIGS[cls, name]


def fn_sig(name):
    try:
        f = getattr(_pyb, name, None)
        if name == "getattr":
            return inspect.signature(lambda o, n, d=None, /: 0)
        return inspect.signature(f) if f is not None and not isinstance(f, type) else None
    except (ValueError, TypeError):
        return None


def method(I, o, name, only=None):
    _i = _imp()
    if isinstance(o, _i.Obj):
        classes = [only] if only is not None else [k for k in o.cls.mro if k.builtin]
    elif isinstance(o, _i.Cls):
        classes = [only] if only is not None else [I.cls["type"]]
    else:
        k = kind(o)
        n = VALUE_CLASSES.get(k, k)
        c = I.cls.get(n)
        classes = [c] if c is not None else []
        if n == "bool":
            classes.append(I.cls["int"])
        if n == "ParseResult":
            classes.append(I.cls["object"])
    for k in classes:
        t = METHODS.get(k.name, {})
        if name in t:
            f = t[name]
            if getattr(f, "is_value", False):
                v = f(I, o, [], {})
                return _i.NONE_VALUE if v is None and not isinstance(o, _i.Obj) else v
            return _i.Builtin(k.name + "." + name, lambda I, a, kw, f=f: f(I, o, a, kw), host_sig(k.name, name))
        if (k.name, name) in STATIC:
            return static_method(I, k, name)
        if name == "__init__":
            if k.name in ("list", "dict", "set", "object", "type") or k.issub(I.cls["BaseException"]) or k.name in (
                    "ContentHandler", "ABC", "Enum"):
                return _i.Builtin(k.name + ".__init__", lambda I, a, kw, k=k: base_init(I, o, k, a, kw))
        if name == "__new__" and k.name == "object":
            return static_method(I, k, name)
    return None


def base_init(I, o, k, args, kw):
    if k.name == "list":
        I.touch(o, ("init", None))
        o.payload = I.iterate(args[0]) if args else []
    elif k.name == "dict":
        I.touch(o, ("init", None))
        o.payload = o.payload or []
        dict_update(I, o, args, kw)
    elif k.name == "set":
        I.touch(o, ("init", None))
        o.payload = []
        for x in (I.iterate(args[0]) if args else []):
            I.set_add(o, x)
    elif isinstance(o, type(o)) and k.issub(I.cls["BaseException"]):
        o.fields["args"] = I.mktuple(args)
    return None


def value(f):
    f.is_value = True
    return f


# object / type
@meth("object", "__eq__")
def _(I, o, a, k):
    return True if o is a[0] else I.notimpl


@meth("object", "__ne__")
def _(I, o, a, k):
    return not I.eq(o, a[0])


@meth("object", "__hash__")
def _(I, o, a, k):
    return app("hash", (o,), "int")


@meth("object", "__str__", "__repr__")
def _(I, o, a, k):
    return app("strobj", (o,), "str", taint=True)


@meth("object", "__setattr__")
def _(I, o, a, k):
    I.touch(o, ("set", a[0]))
    o.fields[a[0]] = a[1]


@meth("object", "__getattribute__")
def _(I, o, a, k):
    return I.plain_getattr(o, a[0]) if isinstance(o, _imp().Obj) else I.getattr(o, a[0])


@meth("object", "__init_subclass__", "__format__", "__reduce__")
def _(I, o, a, k):
    return None


@meth("type", "__call__")
def _(I, o, a, k):
    return I.instantiate(o, a, k)


@meth("type", "mro")
def _(I, o, a, k):
    return I.mklist(o.mro)


# str
def _s(n):
    def f(I, o, a, k):
        return case_(I, o, n)
    return f


for _n in ("lower", "upper", "casefold", "title", "capitalize", "swapcase"):
    METHODS.setdefault("str", {})[_n] = _s(_n)


def _st(n):
    def f(I, o, a, k):
        return strip_(I, o, n, a[0] if a else None)
    return f


for _n in ("strip", "lstrip", "rstrip"):
    METHODS["str"][_n] = _st(_n)


@meth("str", "split")
def _(I, o, a, k):
    sep = a[0] if a else k.get("sep")
    mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
    return I.mklist(split_(I, o, sep, mx))


@meth("str", "rsplit")
def _(I, o, a, k):
    if isinstance(o, str) and all(is_const(x) for x in a):
        return I.mklist(o.rsplit(*a, **k))
    if len(a) < 2:
        return I.mklist(split_(I, o, *(a[:1])))
    raise I.undecided("rsplit")


@meth("str", "splitlines")
def _(I, o, a, k):
    if isinstance(o, str):
        return I.mklist(o.splitlines())
    raise I.undecided("splitlines")


@meth("str", "partition")
def _(I, o, a, k):
    if isinstance(o, str) and isinstance(a[0], str):
        return I.mktuple(o.partition(a[0]))
    i = str_find(I, o, a[0], False)
    if isinstance(i, int) and i == -1:
        return I.mktuple([o, "", ""])
    c = cut_at(I, I.norm(o), i)
    if c is None or not isinstance(a[0], str):
        raise I.undecided("partition")
    d = cut_at(I, mk_str(c[1]), len(a[0]))
    return I.mktuple([mk_str(c[0]), a[0], mk_str(d[1])])


@meth("str", "rpartition")
def _(I, o, a, k):
    if isinstance(o, str) and isinstance(a[0], str):
        return I.mktuple(o.rpartition(a[0]))
    if isinstance(a[0], str) and isinstance(I.norm(o), Sym) and not excludes(I.norm(o), a[0][0]):
        # a text nothing is known of: without the separator, or some two texts around its last occurrence
        s = I.norm(o)
        if not str_contains(I, s, a[0]):
            return I.mktuple(["", "", o])
        return I.mktuple([app("before-last", (s, a[0]), "str"), a[0], app("after-last", (s, a[0]), "str")])
    parts = split_(I, o, a[0])
    if len(parts) == 1:
        return I.mktuple(["", "", o])
    return I.mktuple([join_(I, a[0], parts[:-1]), a[0], parts[-1]])


@meth("str", "join")
def _(I, o, a, k):
    return join_(I, o, I.iterate(a[0]))


@meth("str", "replace")
def _(I, o, a, k):
    if len(a) > 2 and not all(is_const(x) for x in [o] + a):
        raise I.undecided("replace with count")
    if len(a) > 2:
        return o.replace(*a)
    return replace_(I, o, a[0], a[1])


@meth("str", "find")
def _(I, o, a, k):
    if len(a) > 1:
        if isinstance(o, str) and all(is_const(x) for x in a):
            return o.find(*a)
        raise I.undecided("find with bounds")
    return str_find(I, o, a[0], False)


@meth("str", "index")
def _(I, o, a, k):
    if len(a) > 1:
        if isinstance(o, str) and all(is_const(x) for x in a):
            return o.index(*a)
        raise I.undecided("index with bounds")
    return str_find(I, o, a[0], True)


@meth("str", "rfind", "rindex")
def _(I, o, a, k):
    if isinstance(o, str) and isinstance(a[0], str):
        return o.rfind(a[0])
    o = I.norm(o)
    parts = split_(I, o, a[0])
    if len(parts) == 1:
        return -1
    return lin_add(lin_add(str_len(o), str_len(parts[-1]), -1), -len(a[0]))


@meth("str", "startswith")
def _(I, o, a, k):
    return startswith_(I, o, a[0])


@meth("str", "endswith")
def _(I, o, a, k):
    return startswith_(I, o, a[0], True)


@meth("str", "removeprefix")
def _(I, o, a, k):
    if startswith_(I, o, a[0]):
        c = cut_at(I, I.norm(o), str_len(a[0]))
        if c is None:
            raise I.undecided("removeprefix")
        return mk_str(c[1])
    return o


@meth("str", "removesuffix")
def _(I, o, a, k):
    if startswith_(I, o, a[0], True):
        c = cut_at(I, I.norm(o), lin_add(str_len(o), str_len(a[0]), -1))
        if c is None:
            raise I.undecided("removesuffix")
        return mk_str(c[0])
    return o


@meth("str", "format")
def _(I, o, a, k):
    return str_format(I, o, a, k)


@meth("str", "zfill")
def _(I, o, a, k):
    if isinstance(o, str):
        return o.zfill(a[0])
    if isinstance(o, Run) and o.width >= a[0]:
        return o
    if isinstance(o, App) and o.op == "str" and kind(o.args[0]) == "int":
        return run_of(I, o.args[0], a[0])
    return app("zfill", (o, a[0]), "str", taint=True)


@meth("str", "count")
def _(I, o, a, k):
    if isinstance(o, str) and isinstance(a[0], str):
        return o.count(a[0])
    return len(split_(I, o, a[0])) - 1


def codec_of(I, x):
    if x is None:
        return "utf-8"
    if not isinstance(x, str):
        raise I.undecided("computed encoding")
    import codecs
    try:
        return codecs.lookup(x).name
    except LookupError:
        raise I.exc("LookupError", "unknown encoding")


#: codecs an XML parser recognises without a declaration
SELF_DECLARING = ("utf-8", "utf-8-sig", "utf-16")


@meth("str", "encode")
def _(I, o, a, k):
    c = codec_of(I, a[0] if a else k.get("encoding"))
    err = a[1] if len(a) > 1 else k.get("errors", "strict")
    if isinstance(o, str):
        try:
            return o.encode(c, err)
        except UnicodeEncodeError:
            raise I.exc("UnicodeEncodeError", c)
    if c == "utf-8":
        return app("encode", (o,), "bytes")
    return app("encode", (o, c, err), "bytes")


def non_ascii(I, v):
    """The text may hold characters beyond ASCII."""
    if not isinstance(v, Val) or not is_str(v):
        return isinstance(v, str) and not v.isascii()
    return any(not excludes(p, chr(233)) for p in pieces(I.norm(v)))


def tree_texts(e):
    for n, v in e.fields["attrib"].payload:
        yield n
        yield v
    if e.fields["text"] is not None:
        yield e.fields["text"]
    for c in e.fields["children"].payload:
        for x in tree_texts(c):
            yield x


def recoded(I, root, wrote, err, read=None):
    """The document after having been written in one encoding and read in another (None: as the parser sees fit)."""
    if wrote == (read or "utf-8") and wrote.startswith("utf") or read is None and wrote in SELF_DECLARING or (wrote, read) == ("utf-8", "utf-8-sig"):
        return root
    if not any(non_ascii(I, x) for x in tree_texts(root)):
        return root
    if err == "xmlcharrefreplace" and wrote in ("ascii", "iso8859-1", "cp1252") and read is None and wrote == "ascii":
        return root
    if err == "strict" and not wrote.startswith("utf"):
        raise I.exc("UnicodeEncodeError", wrote)

    def copy(e):
        c = new_element(I, e.fields["tag"], [], {})
        f = lambda v: app("recode", (v, wrote, err, read), "str") if non_ascii(I, v) else v
        for n, v in e.fields["attrib"].payload:
            I.dict_set(c.fields["attrib"], n, f(v))
        c.fields["text"] = f(e.fields["text"]) if e.fields["text"] is not None else None
        c.fields["children"].payload.extend(copy(x) for x in e.fields["children"].payload)
        return c
    return copy(root)


@meth("bytes", "decode")
def _(I, o, a, k):
    c = codec_of(I, a[0] if a else k.get("encoding"))
    if isinstance(o, bytes):
        try:
            return o.decode(c, *a[1:2])
        except UnicodeDecodeError:
            raise I.exc("UnicodeDecodeError", c)
    if isinstance(o, App) and o.op == "encode" and (o.args[1] if len(o.args) > 1 else "utf-8") == c and (
            c.startswith("utf") and len(o.args) < 3):
        return o.args[0]
    if c == "utf-8":
        return app("decode", (o,), "str")
    return app("decode", (o, c), "str")


@meth("str", "isspace")
def _(I, o, a, k):
    if isinstance(o, str):
        return o.isspace()
    if any(nonblank(p) for p in pieces(I.norm(o))):
        return False
    return I.branch(("isspace", o), "%s.isspace()" % show(o))


def _is(n):
    def f(I, o, a, k):
        o = I.norm(o)
        if isinstance(o, str):
            return getattr(o, n)()
        if n in ("isdigit", "isnumeric", "isdecimal") and all(
                isinstance(p, Run) or isinstance(p, str) and p.isdigit() for p in pieces(o)):
            return True
        if n == "isupper" and isinstance(o, App) and o.op == "lower":
            return False
        if n == "islower" and isinstance(o, App) and o.op == "upper":
            return False
        return I.branch((n, o), "%s.%s()" % (show(o), n))
    return f


for _n in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isupper", "islower", "isidentifier"):
    METHODS["str"][_n] = _is(_n)


@meth("str", "__eq__")
def _(I, o, a, k):
    return I.eq(o, a[0])


@meth("str", "__contains__")
def _(I, o, a, k):
    return I.contains(o, a[0])


@meth("str", "__str__")
def _(I, o, a, k):
    return o


@meth("str", "__len__")
def _(I, o, a, k):
    return str_len(o)


@meth("str", "__hash__")
def _(I, o, a, k):
    return I.hash_term(o)


@meth("str", "translate")
def _(I, o, a, k):
    return app("translate", (o,), "str", taint=True)


# numbers
for _t in ("int", "float", "UUID", "datetime"):
    METHODS.setdefault(_t, {})["__eq__"] = lambda I, o, a, k: I.eq(o, a[0])
    METHODS[_t]["__ne__"] = lambda I, o, a, k: not I.eq(o, a[0])
    METHODS[_t]["__hash__"] = lambda I, o, a, k: I.hash_term(o)
    METHODS[_t]["__str__"] = lambda I, o, a, k: I.to_str(o)
    for _nm, _op in (("__lt__", ast.Lt), ("__le__", ast.LtE), ("__gt__", ast.Gt), ("__ge__", ast.GtE)):
        METHODS[_t][_nm] = lambda I, o, a, k, _op=_op: I.compare(_op(), o, a[0])


@meth("int", "bit_length", "to_bytes")
def _(I, o, a, k):
    raise I.undecided("int method")


@meth("float", "is_integer")
def _(I, o, a, k):
    if is_const(o):
        return float(o).is_integer()
    return I.branch(("isint", I.norm(o)), "%s is integral" % show(o))


# UUID
@meth("UUID", "hex")
@value
def _(I, o, a, k):
    t = uuid_text(o)
    return app("uuidhex", (o,), "str") if t is None else t.replace("-", "")


@meth("UUID", "int")
@value
def _(I, o, a, k):
    t = uuid_text(o)
    return app("uuidint", (o,), "int") if t is None else int(t.replace("-", ""), 16)


@meth("UUID", "urn", "bytes", "version")
@value
def _(I, o, a, k):
    raise I.undecided("UUID attribute")


# datetime
def _dp(part):
    @value
    def f(I, o, a, k):
        return dt_part(I.norm(o), part)
    return f


for _n in PARTS:
    METHODS["datetime"][_n] = _dp(_n)


@meth("datetime", "tzinfo")
@value
def _(I, o, a, k):
    return dt_tz(I, I.norm(o))


@meth("datetime", "isoformat")
def _(I, o, a, k):
    sep = a[0] if a else k.get("sep", "T")
    ts = a[1] if len(a) > 1 else k.get("timespec", "auto")
    return dt_iso(I, I.norm(o), sep, ts)


@meth("datetime", "strftime", "__format__")
def _(I, o, a, k):
    return strftime(I, I.norm(o), a[0])


@meth("datetime", "tzname")
def _(I, o, a, k):
    tz = dt_tz(I, I.norm(o))
    return None if tz is None else tzname(I, tz)


@meth("datetime", "utcoffset")
def _(I, o, a, k):
    tz = dt_tz(I, I.norm(o))
    return None if tz is None else app("td", (lin_scale(tz_minutes(I, tz), 60),), "td")


@meth("datetime", "replace")
def _(I, o, a, k):
    o = I.norm(o)
    p = [dt_part(o, x) for x in PARTS]
    for i, x in enumerate(a):
        p[i] = x
    tz = dt_tz(I, o) if "tzinfo" not in k else k["tzinfo"]
    for i, n in enumerate(PARTS):
        if n in k:
            p[i] = k[n]
    return mk_dt(I, p, tz)


@meth("datetime", "timetuple", "utctimetuple")
def _(I, o, a, k):
    return app("timetuple", (I.norm(o),), "struct_time")


@meth("datetime", "timestamp")
def _(I, o, a, k):
    o = I.norm(o)
    if isinstance(o, App) and o.op == "fromtimestamp":
        return o.args[0]
    d = I.dt_concrete(o)
    if d is not None and d.tzinfo is not None:
        return d.timestamp()
    return app("timestamp", (o,), "float")


@meth("datetime", "astimezone")
def _(I, o, a, k):
    return app("astimezone", (I.norm(o), a[0] if a else k.get("tz")), "dt")


@meth("datetime", "date", "time", "weekday", "isocalendar", "toordinal", "timetz", "ctime")
def _(I, o, a, k):
    raise I.undecided("datetime method")


STATIC[("datetime", "strptime")] = lambda I, a, k: strptime(I, a[0], a[1])
STATIC[("datetime", "fromisoformat")] = lambda I, a, k: fromisoformat(I, a[0])


def _fromts(I, a, k):
    tz = a[1] if len(a) > 1 else k.get("tz")
    x = I.norm(a[0]) if isinstance(a[0], Val) else a[0]
    if isinstance(x, App) and x.op == "timestamp":
        try:
            if dt_tz(I, x.args[0]) is tz:
                return x.args[0]
        except _i.Undecided:
            pass
    if is_str(x) or x is None or isinstance(x, _i.Obj):
        raise I.exc("TypeError", "an integer is required")
    return app("fromtimestamp", (x,) if tz is None else (x, tz), "dt")


STATIC[("datetime", "fromtimestamp")] = _fromts
STATIC[("datetime", "utcfromtimestamp")] = lambda I, a, k: app("utcfromtimestamp", (a[0],), "dt")
STATIC[("datetime", "now")] = lambda I, a, k: app("now", tuple(a) or tuple(k.values()), "dt")
STATIC[("datetime", "utcnow")] = lambda I, a, k: app("utcnow", (), "dt")
STATIC[("datetime", "today")] = lambda I, a, k: app("now", (), "dt")
STATIC[("datetime", "combine")] = lambda I, a, k: app("combine", tuple(a), "dt")
STATIC[("dict", "fromkeys")] = lambda I, a, k: I.mkdict([(x, a[1] if len(a) > 1 else None) for x in I.iterate(a[0])])
STATIC[("str", "maketrans")] = lambda I, a, k: app("maketrans", (), "any", taint=True)
STATIC[("int", "from_bytes")] = lambda I, a, k: app("from_bytes", (), "int", taint=True)


# timedelta: held in seconds
@meth("timedelta", "total_seconds")
def _(I, o, a, k):
    return o.args[0] if o.op == "td" else app("total_seconds", (o,), "float", taint=True)


@meth("timedelta", "seconds")
@value
def _(I, o, a, k):
    if o.op == "td":
        return mod(o.args[0], 86400)
    return app("td.seconds", (o,), "int", taint=True)


@meth("timedelta", "days")
@value
def _(I, o, a, k):
    if o.op == "td":
        return floordiv(o.args[0], 86400)
    return app("td.days", (o,), "int", taint=True)


@meth("timezone", "utcoffset")
def _(I, o, a, k):
    return app("td", (lin_scale(tz_minutes(I, o), 60),), "td")


@meth("timezone", "tzname")
def _(I, o, a, k):
    return tzname(I, o)


# uri
@meth("ParseResult", "geturl")
def _(I, o, a, k):
    if isinstance(o, App) and o.op == "urlparse":
        return o.args[0]
    return app("geturl", (o,), "str")


def _uripart(n):
    @value
    def f(I, o, a, k):
        s = o.args[0] if isinstance(o, App) and o.op == "urlparse" else None
        if isinstance(s, str):
            from urllib.parse import urlparse
            return getattr(urlparse(s), n)
        return app("uri." + n, (o,), "str")
    return f


for _n in ("scheme", "netloc", "path", "params", "query", "fragment"):
    METHODS.setdefault("ParseResult", {})[_n] = _uripart(_n)


# list
@meth("list", "append")
def _(I, o, a, k):
    I.touch(o, ("append", a[0]))
    o.payload.append(a[0])


@meth("list", "extend")
def _(I, o, a, k):
    items = I.iterate(a[0])
    I.touch(o, ("extend", None))
    o.payload.extend(items)


@meth("list", "insert")
def _(I, o, a, k):
    I.touch(o, ("insert", a[1]))
    i = a[0]
    n = len(o.payload)
    if isinstance(i, Val) and o.open is not None:
        d = lin_add(i, I.list_len(o), -1)
        if isinstance(d, int):
            i = n + d
    if not isinstance(i, int):
        raise I.undecided("insert position %s" % show(i))
    o.payload.insert(i, a[1])


@meth("list", "pop")
def _(I, o, a, k):
    if not o.payload:
        raise I.exc("IndexError", "pop from empty list")
    I.touch(o, ("pop", None))
    if not a:
        return o.payload.pop()
    p = I.index(o, a[0])
    if p is None:
        raise I.exc("IndexError", "pop index out of range")
    return o.payload.pop(p)


@meth("list", "remove")
def _(I, o, a, k):
    for i, x in enumerate(o.payload):
        if x is a[0] or I.eq(x, a[0]):
            I.touch(o, ("remove", x))
            del o.payload[i]
            return None
    raise I.exc("ValueError", "list.remove(x): x not in list")


@meth("list", "index")
def _(I, o, a, k):
    for i, x in enumerate(o.payload):
        if x is a[0] or I.eq(x, a[0]):
            return i
    raise I.exc("ValueError", "not in list")


METHODS.setdefault("tuple", {})["index"] = METHODS["list"]["index"]


@meth("list", "count")
def _(I, o, a, k):
    return sum(1 for x in o.payload if x is a[0] or I.eq(x, a[0]))


METHODS["tuple"]["count"] = METHODS["list"]["count"]


@meth("list", "clear")
def _(I, o, a, k):
    I.touch(o, ("clear", None))
    o.payload = []
    o.open = None


@meth("list", "copy")
def _(I, o, a, k):
    r = I.mklist(o.payload)
    r.open = o.open
    return r


@meth("list", "reverse")
def _(I, o, a, k):
    I.touch(o, ("reverse", None))
    o.payload = o.payload[::-1]


@meth("list", "sort")
def _(I, o, a, k):
    r = sort_items(I, list(o.payload), k.get("key"), k.get("reverse", False))
    I.touch(o, ("sort", None))
    o.payload = r


@meth("list", "__len__")
def _(I, o, a, k):
    return I.list_len(o)


@meth("list", "__iter__")
def _(I, o, a, k):
    return I.new("iterator", list(o.payload))


@meth("list", "__getitem__")
def _(I, o, a, k):
    return list_getitem(I, o, a[0])


def list_getitem(I, o, i):
    _i = _imp()
    if isinstance(i, _i.Obj) and i.cls.name == "slice":
        return I.list_slice(o, i)
    p = I.index(o, i)
    if p is None:
        raise I.exc("IndexError", "list index out of range")
    return o.payload[p]


METHODS["tuple"]["__getitem__"] = METHODS["list"]["__getitem__"]
METHODS["tuple"]["__len__"] = METHODS["list"]["__len__"]
METHODS["tuple"]["__iter__"] = METHODS["list"]["__iter__"]


@meth("tuple", "__hash__")
def _(I, o, a, k):
    return I.hash_term(o)


@meth("list", "__contains__")
def _(I, o, a, k):
    return any(x is a[0] or I.eq(x, a[0]) for x in o.payload)


@meth("list", "__eq__")
def _(I, o, a, k):
    if I.base_of(a[0]) != "list":
        return I.notimpl
    return I.container_eq(o, a[0], "list")


@meth("list", "__ne__")
def _(I, o, a, k):
    if I.base_of(a[0]) != "list":
        return I.notimpl
    return not I.container_eq(o, a[0], "list")


@meth("list", "__setitem__")
def _(I, o, a, k):
    p = I.index(o, a[0])
    if p is None:
        raise I.exc("IndexError", "list assignment index out of range")
    I.touch(o, ("setitem", a[0]))
    o.payload[p] = a[1]


@meth("list", "__add__")
def _(I, o, a, k):
    return I.mklist(list(o.payload) + list(a[0].payload))


@meth("list", "__iadd__")
def _(I, o, a, k):
    items = I.iterate(a[0])
    I.touch(o, ("extend", None))
    o.payload.extend(items)
    return o


def sort_items(I, items, key=None, reverse=False):
    keys = [(x if key is None else I.call(key, [x]), x) for x in items]
    out = []
    for kx in keys:
        i = len(out)
        while i > 0:
            if I.truthy(reverse):
                less = I.compare(ast.Lt(), out[i - 1][0], kx[0])
            else:
                less = I.compare(ast.Lt(), kx[0], out[i - 1][0])
            if not less:
                break
            i -= 1
        out.insert(i, kx)
    return [x for _, x in out]


# dict
@meth("dict", "get")
def _(I, o, a, k):
    v = I.dict_get(o, a[0])
    if v is _imp().MISSING:
        return a[1] if len(a) > 1 else k.get("default")
    return v


def _view(what):
    def f(I, o, a, k):
        v = I.new("dictview")
        v.fields["d"], v.fields["what"] = o, what
        return v
    return f


for _n in ("keys", "values", "items"):
    METHODS["dict"][_n] = _view(_n)


@meth("dict", "pop")
def _(I, o, a, k):
    e = I.dict_find(o, a[0])
    if e is None:
        if len(a) > 1:
            return a[1]
        raise I.exc("KeyError", a[0])
    return I.dict_del(o, a[0])


@meth("dict", "popitem")
def _(I, o, a, k):
    if not o.payload:
        raise I.exc("KeyError", "dictionary is empty")
    I.touch(o, ("popitem", None))
    e = o.payload.pop()
    return I.mktuple(e)


@meth("dict", "setdefault")
def _(I, o, a, k):
    v = I.dict_get(o, a[0])
    if v is _imp().MISSING:
        v = a[1] if len(a) > 1 else None
        I.dict_set(o, a[0], v)
    return v


def dict_update(I, o, args, kw):
    if args:
        src = args[0]
        if I.base_of(src) == "dict":
            for kk, v in [tuple(e) for e in src.payload]:
                I.dict_set(o, kk, v)
        elif src is None:
            raise I.exc("TypeError", "'NoneType' object is not iterable")
        else:
            for e in I.iterate(src):
                kk, v = I.iterate(e)
                I.dict_set(o, kk, v)
    for kk, v in kw.items():
        I.dict_set(o, kk, v)


@meth("dict", "update")
def _(I, o, a, k):
    dict_update(I, o, a, k)


@meth("dict", "copy")
def _(I, o, a, k):
    d = I.mkdict()
    d.payload = [list(e) for e in o.payload]
    return d


@meth("dict", "clear")
def _(I, o, a, k):
    I.touch(o, ("clear", None))
    o.payload = []


@meth("dict", "__len__")
def _(I, o, a, k):
    return len(o.payload)


@meth("dict", "__contains__")
def _(I, o, a, k):
    return I.dict_find(o, a[0]) is not None


@meth("dict", "__getitem__")
def _(I, o, a, k):
    v = I.dict_get(o, a[0])
    if v is _imp().MISSING:
        raise I.exc("KeyError", a[0])
    return v


@meth("dict", "__setitem__")
def _(I, o, a, k):
    I.dict_set(o, a[0], a[1])


@meth("dict", "__delitem__")
def _(I, o, a, k):
    I.dict_del(o, a[0])


@meth("dict", "__iter__")
def _(I, o, a, k):
    return I.new("iterator", [e[0] for e in o.payload])


@meth("dict", "__eq__")
def _(I, o, a, k):
    if I.base_of(a[0]) != "dict":
        return I.notimpl
    return I.container_eq(o, a[0], "dict")


@meth("OrderedDict", "move_to_end")
def _(I, o, a, k):
    e = I.dict_find(o, a[0])
    if e is None:
        raise I.exc("KeyError", a[0])
    I.touch(o, ("move", None))
    rest, last = [x for x in o.payload if x is not e], a[1] if len(a) > 1 else k.get("last", True)
    o.payload = rest + [e] if I.truthy(last) else [e] + rest


@meth("deque", "appendleft")
def _(I, o, a, k):
    I.touch(o, ("insert", a[0]))
    o.payload.insert(0, a[0])


@meth("deque", "popleft")
def _(I, o, a, k):
    if not o.payload:
        raise I.exc("IndexError", "pop from an empty deque")
    I.touch(o, ("pop", None))
    return o.payload.pop(0)


@meth("deque", "extendleft")
def _(I, o, a, k):
    items = I.iterate(a[0])
    I.touch(o, ("extend", None))
    o.payload = items[::-1] + list(o.payload)


@meth("deque", "rotate")
def _(I, o, a, k):
    n = a[0] if a else 1
    I.touch(o, ("rotate", None))
    if o.payload:
        n %= len(o.payload)
        o.payload = o.payload[-n:] + o.payload[:-n] if n else o.payload


@meth("Counter", "most_common")
def _(I, o, a, k):
    items = sorted([tuple(e) for e in o.payload], key=lambda e: -e[1]) if all(isinstance(e[1], int) for e in o.payload) else None
    if items is None:
        raise I.undecided("most_common of unknown counts")
    return I.mklist([I.mktuple(e) for e in items[:a[0] if a else None]])


@meth("dictview", "__len__")
def _(I, o, a, k):
    return len(o.fields["d"].payload)


@meth("dictview", "__iter__")
def _(I, o, a, k):
    return I.new("iterator", I.contents(o))


# set
@meth("set", "add")
def _(I, o, a, k):
    I.set_add(o, a[0])


@meth("set", "update")
def _(I, o, a, k):
    for x in a:
        for y in I.iterate(x):
            I.set_add(o, y)


@meth("set", "discard", "remove")
def _(I, o, a, k):
    I.check_hashable(a[0])
    keep = [x for x in o.payload if not I.key_eq(x, a[0])]
    I.touch(o, ("discard", a[0]))
    o.payload = keep


@meth("set", "clear")
def _(I, o, a, k):
    I.touch(o, ("clear", None))
    o.payload = []


@meth("set", "pop")
def _(I, o, a, k):
    if not o.payload:
        raise I.exc("KeyError", "pop from an empty set")
    I.touch(o, ("pop", None))
    return o.payload.pop(0)


@meth("set", "copy")
def _(I, o, a, k):
    s = I.mkset()
    s.payload = list(o.payload)
    return s


@meth("set", "union")
def _(I, o, a, k):
    s = I.mkset()
    s.payload = list(o.payload)
    for x in a:
        for y in I.iterate(x):
            I.set_add(s, y)
    return s


@meth("set", "intersection")
def _(I, o, a, k):
    return I.mkset([x for x in o.payload if all(I.contains(y, x) for y in a)])


@meth("set", "difference")
def _(I, o, a, k):
    return I.mkset([x for x in o.payload if not any(I.contains(y, x) for y in a)])


@meth("set", "symmetric_difference")
def _(I, o, a, k):
    other = I.iterate(a[0])
    return I.mkset([x for x in o.payload if not any(I.eq(x, y) for y in other)] + [y for y in other if not I.set_has(o, y)])


@meth("set", "intersection_update")
def _(I, o, a, k):
    I.touch(o, ("update", None))
    o.payload = [x for x in o.payload if all(I.contains(y, x) for y in a)]


@meth("set", "difference_update")
def _(I, o, a, k):
    I.touch(o, ("update", None))
    o.payload = [x for x in o.payload if not any(I.contains(y, x) for y in a)]


@meth("set", "issubset")
def _(I, o, a, k):
    return all(I.contains(a[0], x) for x in o.payload)


@meth("set", "issuperset")
def _(I, o, a, k):
    return all(I.set_has(o, x) for x in I.iterate(a[0]))


@meth("set", "isdisjoint")
def _(I, o, a, k):
    return not any(I.set_has(o, x) for x in I.iterate(a[0]))


@meth("set", "__len__")
def _(I, o, a, k):
    return len(o.payload)


@meth("set", "__contains__")
def _(I, o, a, k):
    return I.set_has(o, a[0])


@meth("set", "__iter__")
def _(I, o, a, k):
    return I.new("iterator", I.contents(o))


METHODS["frozenset"] = {n: METHODS["set"][n] for n in ("copy", "union", "intersection", "difference", "issubset", "issuperset",
                                                       "__len__", "__contains__", "__iter__")}


@meth("iterator", "__next__")
def _(I, o, a, k):
    v = I.pull(o)
    if v is _imp().MISSING:
        raise I.exc("StopIteration")
    return v


@meth("iterator", "throw")
def _(I, o, a, k):
    from .interp import PyRaise
    v = a[-1]
    if isinstance(v, _imp().Cls):
        v = I.call(v, [])
    if o.lazy is None:
        raise PyRaise(v, I.loc())
    try:
        return o.lazy.throw(PyRaise(v, I.loc()))
    except StopIteration:
        o.lazy = None
        raise I.exc("StopIteration")


@meth("iterator", "close")
def _(I, o, a, k):
    from .interp import PyRaise
    if o.lazy is not None and o.started:
        gone, o.lazy = o.lazy, None
        try:
            gone.throw(PyRaise(I.exc("GeneratorExit").value, I.loc()))
        except StopIteration:
            pass
        except PyRaise as e:
            if e.value.cls.name != "GeneratorExit":
                raise
    o.lazy, o.payload = None, []
    return None


@meth("iterator", "send")
def _(I, o, a, k):
    if a[0] is None or o.lazy is None:
        return I.call(I.getattr(o, "__next__"), [])
    try:
        return o.lazy.send(a[0])
    except StopIteration:
        o.lazy = None
        raise I.exc("StopIteration")


@meth("iterator", "__iter__")
def _(I, o, a, k):
    return o


@meth("function", "__call__")
def _(I, o, a, k):
    return I.call(o, a, k)


@meth("BaseException", "args", "errno", "strerror")
@value
def _(I, o, a, k):
    return app("excattr", (o,), "any", taint=True)


@meth("BaseException", "__cause__", "__context__", "__traceback__", "__suppress_context__")
@value
def _(I, o, a, k):
    return None


@meth("BaseException", "add_note")
def _(I, o, a, k):
    return None


@meth("BaseException", "with_traceback")
def _(I, o, a, k):
    return o


# files
@meth("File", "close")
def _(I, o, a, k):
    I.touch(o, ("close", None))
    if not o.fields.get("closed"):
        o.fields["closed"] = True
        file_flush(I, o)


def file_flush(I, o):
    path = o.fields.get("path")
    if path is not None and "w" in o.fields.get("mode", ""):
        I.fs[path] = o
        if I.disk is not None:
            o.fields["mtime"] = I.disk["now"]


@meth("File", "flush", "seek")
def _(I, o, a, k):
    return None


@meth("File", "__enter__")
def _(I, o, a, k):
    return o


@meth("File", "__exit__")
def _(I, o, a, k):
    METHODS["File"]["close"](I, o, [], {})
    return False


@meth("File", "write")
def _(I, o, a, k):
    if o.fields.get("closed"):
        raise I.exc("ValueError", "I/O operation on closed file")
    v = a[0]
    kd = kind(v)
    if kd != "any":
        binary = "b" in o.fields.get("mode", "w")
        if binary and kd != "bytes" or not binary and kd != "str":
            raise I.exc("TypeError", "write() argument must be %s" % ("bytes" if binary else "str"))
    I.effect("write")
    I.touch(o, ("write", v))
    o.fields["content"] = o.fields.get("content", ()) + (v,)


def whole(I, c, empty):
    """The content written in the given pieces, as one value."""
    c = [x for x in c if not (is_const(x) and len(x) == 0)]
    if not c:
        return empty
    if isinstance(c[0], App) and c[0].op == "part":
        base, n = c[0].args[0], c[0].args[2]
        if [x.args[1:] if isinstance(x, App) and x.op == "part" and x.args[0] is base else None for x in c] == [
                (i, n) for i in range(n)]:
            return base
    if len(c) == 1:
        return c[0]
    if all(is_str(x) for x in c):
        return mk_str([q for x in c for q in pieces(x)])
    return app("content", tuple(c), kind(c[0]))


@meth("File", "getvalue")
def _(I, o, a, k):
    return whole(I, o.fields.get("content", ()), b"" if "b" in o.fields.get("mode", "") else "")


@meth("File", "readline", "readlines", "__next__")
def _(I, o, a, k):
    raise I.undecided("reading lines of a file")


@meth("File", "read")
def _(I, o, a, k):
    if o.fields.get("closed"):
        raise I.exc("ValueError", "I/O operation on closed file")
    c = o.fields.get("content", ())
    empty = b"" if "b" in o.fields.get("mode", "") else ""
    pos = o.fields.get("pos", 0)
    I.effect("read")
    if pos >= len(c):
        return empty
    I.touch(o, ("read", None))
    size = a[0] if a else k.get("size")
    if size is None or size == -1:
        o.fields["pos"] = len(c)
        return whole(I, c[pos:], empty)
    if not is_const(size):
        raise I.undecided("read of a computed size")
    o.fields["pos"] = pos + 1
    return c[pos]


def fspath(I, p):
    if isinstance(p, _imp().Obj):
        m = I.user(p, "__fspath__")
        if m is not None:
            return I.call(m, [])
    return p


def new_file(I, path, mode, gz=False, web=None, kw=None):
    path = fspath(I, path)
    I.effect("open")
    if I.disk is not None and web is None:
        path = I.cpath(I, path, "open")
        if "r" in mode and path not in I.fs or "r" not in mode and path.rpartition("/")[0] not in I.disk["dirs"]:
            raise I.exc("FileNotFoundError", path)
        if path in I.disk["dirs"]:
            raise I.exc("IsADirectoryError", path)
    o = I.new("File")
    o.fields.update(path=path, name=path, mode=mode, closed=False, gz=gz, content=())
    kw = kw or {}
    if "b" not in mode:
        o.fields["enc"] = codec_of(I, kw.get("encoding"))
        o.fields["encerr"] = kw.get("errors") or "strict"
    if "r" in mode:
        src = (I.fs if web is None else web).get(path)
        if src is None:
            if ("open-missing", path) in I.faults:
                raise I.exc("FileNotFoundError", path)
        else:
            o.fields["content"] = src.fields["content"]
            o.fields["srcgz"] = src.fields.get("gz", False)
            o.fields["doc"] = src.fields.get("doc")
            if src.fields.get("enc"):
                o.fields["srcenc"] = (src.fields["enc"], src.fields["encerr"])
    o.fields["site"] = I.loc()
    I.opened.append(o)
    return o


# xml tree
@meth("Element", "set")
def _(I, o, a, k):
    I.dict_set(o.fields["attrib"], a[0], a[1])


@meth("Element", "get")
def _(I, o, a, k):
    v = I.dict_get(o.fields["attrib"], a[0])
    return (a[1] if len(a) > 1 else None) if v is _imp().MISSING else v


@meth("Element", "append")
def _(I, o, a, k):
    I.touch(o.fields["children"], ("append", a[0]))
    o.fields["children"].payload.append(a[0])


@meth("Element", "extend")
def _(I, o, a, k):
    o.fields["children"].payload.extend(I.iterate(a[0]))


@meth("Element", "insert")
def _(I, o, a, k):
    o.fields["children"].payload.insert(a[0], a[1])


@meth("Element", "remove")
def _(I, o, a, k):
    o.fields["children"].payload = [c for c in o.fields["children"].payload if c is not a[0]]


@meth("Element", "__len__")
def _(I, o, a, k):
    return len(o.fields["children"].payload)


@meth("Element", "keys")
def _(I, o, a, k):
    return I.call(I.getattr(o.fields["attrib"], "keys"), [])


@meth("Element", "items")
def _(I, o, a, k):
    return I.call(I.getattr(o.fields["attrib"], "items"), [])


@meth("Element", "__iter__")
def _(I, o, a, k):
    return I.new("iterator", list(o.fields["children"].payload))


@meth("Element", "__getitem__")
def _(I, o, a, k):
    return I.getitem(o.fields["children"], a[0])


def el_match(I, e, path):
    if not isinstance(path, str) or not _re.fullmatch(r"(\./)?[\w*]+", path):
        raise I.undecided("element path")
    path = path[2:] if path.startswith("./") else path
    return path == "*" or I.truthy(I.eq(e.fields["tag"], path))


@meth("Element", "find")
def _(I, o, a, k):
    for c in o.fields["children"].payload:
        if el_match(I, c, a[0]):
            return c
    return None


@meth("Element", "findall")
def _(I, o, a, k):
    return I.mklist([c for c in o.fields["children"].payload if el_match(I, c, a[0])])


@meth("Element", "findtext")
def _(I, o, a, k):
    for c in o.fields["children"].payload:
        if el_match(I, c, a[0]):
            return c.fields["text"] or ""
    return a[1] if len(a) > 1 else k.get("default")


@meth("Element", "iter")
def _(I, o, a, k):
    out = []

    def walk(e):
        if not a or a[0] is None or el_match(I, e, a[0]):
            out.append(e)
        for c in e.fields["children"].payload:
            walk(c)
    walk(o)
    return I.new("iterator", out)


@meth("Element", "clear")
def _(I, o, a, k):
    I.touch(o.fields["children"], ("clear", None))
    o.fields["children"].payload.clear()
    I.touch(o.fields["attrib"], ("clear", None))
    o.fields["attrib"].payload.clear()
    o.fields["text"] = o.fields["tail"] = None


@meth("Element", "makeelement")
def _(I, o, a, k):
    return new_element(I, a[0], a[1:], {})


def new_element(I, tag, args, kw):
    e = I.new("Element")
    at = I.mkdict()
    if args:
        dict_update(I, at, [args[0]], {})
    kw = dict(kw)
    if "attrib" in kw and not args:
        dict_update(I, at, [kw.pop("attrib")], {})
    for n, v in kw.items():
        I.dict_set(at, n, v)
    e.fields.update(tag=tag, attrib=at, children=I.mklist([]), text=None, tail=None)
    e.tag = "<%s>" % show(tag)
    return e


def check_tree(I, e):
    """The serialisation functions accept text only."""
    if not is_str(e.fields["tag"]) and kind(e.fields["tag"]) != "any":
        raise I.exc("TypeError", "cannot serialize tag")
    for n, v in e.fields["attrib"].payload:
        for x in (n, v):
            if isinstance(x, Val) and kind(x) == "any":
                continue
            if not is_str(x):
                raise I.exc("TypeError", "cannot serialize %s (attribute %s of <%s>)" % (
                    show(x), show(n), show(e.fields["tag"])))
    t = e.fields["text"]
    if t is not None and not is_str(t) and not (isinstance(t, Val) and kind(t) == "any"):
        raise I.exc("TypeError", "cannot serialize %s (text of <%s>)" % (show(t), show(e.fields["tag"])))
    for c in e.fields["children"].payload:
        check_tree(I, c)


@meth("Document", "createComment")
def _(I, o, a, k):
    n = I.new("Node")
    n.fields["data"] = a[0]
    return n


@meth("Document", "childNodes")
@value
def _(I, o, a, k):
    return o.fields["childNodes"]


@meth("Document", "firstChild")
@value
def _(I, o, a, k):
    return o.fields["childNodes"].payload[0]


@meth("Document", "insertBefore")
def _(I, o, a, k):
    ch = o.fields["childNodes"]
    I.touch(ch, ("insert", a[0]))
    if a[1] is None:
        ch.payload.append(a[0])
    else:
        for i, c in enumerate(ch.payload):
            if c is a[1]:
                ch.payload.insert(i, a[0])
                break
        else:
            raise I.exc("ValueError", "insertBefore: reference is not a child")
    return a[0]


@meth("Document", "appendChild")
def _(I, o, a, k):
    I.touch(o.fields["childNodes"], ("append", a[0]))
    o.fields["childNodes"].payload.append(a[0])
    return a[0]


@meth("Document", "toprettyxml", "toxml")
def _(I, o, a, k):
    for c in o.fields["childNodes"].payload:
        if c.cls.name == "Node" and isinstance(c.fields["data"], str) and "--" in c.fields["data"]:
            raise I.exc("ValueError", "'--' is not allowed in a comment node")
    I.effect("XML writer")
    t = app("domtext", (o.fields["root"],), "str")
    if "encoding" in k and k["encoding"] is not None or len(a) > 2:
        return app("encode", (t,), "bytes")
    return t


@meth("Document", "writexml")
def _(I, o, a, k):
    t = app("domtext", (o.fields["root"],), "str")
    I.call(I.getattr(a[0], "write"), [t])


@meth("Document", "unlink")
def _(I, o, a, k):
    return None


# SAX attribute object
@meth("AttrImpl", "getValue")
def _(I, o, a, k):
    v = I.dict_get(o.fields["d"], a[0])
    if v is _imp().MISSING:
        raise I.exc("KeyError", a[0])
    return v


@meth("AttrImpl", "get")
def _(I, o, a, k):
    v = I.dict_get(o.fields["d"], a[0])
    if v is _imp().MISSING:
        return a[1] if len(a) > 1 else k.get("alternative")
    return v


@meth("AttrImpl", "getNames", "keys", "getQNames")
def _(I, o, a, k):
    return I.mklist([e[0] for e in o.fields["d"].payload])


@meth("AttrImpl", "values")
def _(I, o, a, k):
    return I.mklist([e[1] for e in o.fields["d"].payload])


@meth("AttrImpl", "items")
def _(I, o, a, k):
    return I.mklist([I.mktuple(e) for e in o.fields["d"].payload])


@meth("AttrImpl", "getLength", "__len__")
def _(I, o, a, k):
    return len(o.fields["d"].payload)


@meth("AttrImpl", "__contains__", "has_key")
def _(I, o, a, k):
    return I.dict_find(o.fields["d"], a[0]) is not None


@meth("AttrImpl", "__iter__")
def _(I, o, a, k):
    return I.new("iterator", [e[0] for e in o.fields["d"].payload])


@meth("AttrImpl", "copy")
def _(I, o, a, k):
    return o


for _n in ("startElement", "endElement", "characters", "ignorableWhitespace", "startDocument", "endDocument",
           "setDocumentLocator", "processingInstruction", "skippedEntity", "startPrefixMapping", "endPrefixMapping"):
    METHODS.setdefault("ContentHandler", {})[_n] = lambda I, o, a, k: None


@meth("SaxParser", "setContentHandler")
def _(I, o, a, k):
    o.fields["handler"] = a[0]


@meth("SaxParser", "setFeature", "setErrorHandler", "setProperty", "setEntityResolver", "setDTDHandler", "close", "reset")
def _(I, o, a, k):
    return None


@meth("SaxParser", "parse")
def _(I, o, a, k):
    sax_parse(I, a[0], o.fields["handler"])


@meth("Lock", "acquire", "release", "__enter__", "locked")
def _(I, o, a, k):
    return True


@meth("Lock", "__exit__")
def _(I, o, a, k):
    return False


@meth("Partial", "__call__")
def _(I, o, a, k):
    kw = dict(o.fields["kw"])
    kw.update(k)
    return I.call(o.fields["f"], list(o.fields["a"]) + a, kw)


@meth("Closing", "__enter__")
def _(I, o, a, k):
    return o.fields["o"]


@meth("Closing", "__exit__")
def _(I, o, a, k):
    I.call(I.getattr(o.fields["o"], "close"), [])
    return False


@meth("Suppress", "__enter__")
def _(I, o, a, k):
    return o


@meth("Suppress", "__exit__")
def _(I, o, a, k):
    return a[0] is not None and any(a[0].issub(c) for c in o.fields["c"])


@meth("Null", "__enter__")
def _(I, o, a, k):
    return None


@meth("Null", "__exit__")
def _(I, o, a, k):
    return False


@meth("Regex", "split")
def _(I, o, a, k):
    return re_call(I, "split", [o.fields["p"]] + a, k)


@meth("Regex", "findall")
def _(I, o, a, k):
    return re_call(I, "findall", [o.fields["p"]] + a, k)


@meth("Regex", "sub")
def _(I, o, a, k):
    return re_call(I, "sub", [o.fields["p"]] + a, k)


@meth("Regex", "match", "fullmatch", "search", "finditer")
def _(I, o, a, k):
    raise I.undecided("regular expression")


for _fn in ("match", "fullmatch", "search", "finditer"):
    METHODS["Regex"][_fn] = lambda I, o, a, k, _fn=_fn: re_match(I, _fn, o.fields["p"], a[0], {"flags": o.fields.get("flags", 0)})


@meth("Match", "group", "__getitem__")
def _(I, o, a, k):
    out = [group_of(I, o, g) for g in (a or [0])]
    return out[0] if len(out) == 1 else I.mktuple(out)


@meth("Match", "groups")
def _(I, o, a, k):
    d = a[0] if a else k.get("default")
    out = [group_of(I, o, g) for g in range(1, o.fields["m"].re.groups + 1)]
    return I.mktuple([d if x is None else x for x in out])


@meth("Match", "groupdict")
def _(I, o, a, k):
    d = a[0] if a else k.get("default")
    out = [(g, group_of(I, o, g)) for g in o.fields["m"].re.groupindex]
    return I.mkdict([(g, d if x is None else x) for g, x in out])


@meth("Match", "start", "end", "span")
def _(I, o, a, k):
    raise I.undecided("match position")


for _fn in ("start", "end", "span"):
    METHODS["Match"][_fn] = lambda I, o, a, k, _fn=_fn: lift(I, getattr(o.fields["m"], _fn)(*a))


@meth("DomNode", "data")
@value
def _(I, o, a, k):
    return o.fields["data"]


def attr_norm(I, v):
    """An attribute value after minidom has written it and a parser has read it: minidom writes line breaks and tabs
    raw, and XML replaces them by blanks on reading."""
    if not is_str(v):
        return v
    if isinstance(v, str):
        return v.translate({9: " ", 10: " ", 13: " "})
    if all(excludes(p, c) for p in pieces(I.norm(v)) for c in "\t\n\r"):
        return v
    return app("attrnorm", (v,), "str", taint=tainted(v))


def well_formed(I, e):
    """Tags and attribute names written into XML text have to be names."""
    for n in [e.fields["tag"]] + [x[0] for x in e.fields["attrib"].payload]:
        for p in pieces(n) if is_str(n) else ():
            if isinstance(p, str) and any(c in p for c in " \t\n<>&\"'=/;,()[]{}"):
                raise I.exc("ExpatError", "not well-formed (invalid token)")
    for c in e.fields["children"].payload:
        well_formed(I, c)


def dom_written(I, e):
    c = new_element(I, e.fields["tag"], [], {})
    for n, v in e.fields["attrib"].payload:
        I.dict_set(c.fields["attrib"], n, attr_norm(I, v))
    c.fields["text"] = e.fields["text"]
    c.fields["children"].payload.extend(dom_written(I, x) for x in e.fields["children"].payload)
    return c


def sax_source(I, src):
    src = fspath(I, src)
    """The document element behind an input source."""
    _i = _imp()
    if isinstance(src, _i.Obj):
        if src.cls.name == "Element":
            return src
        if src.cls.name == "File":
            if src.fields.get("closed"):
                raise I.exc("ValueError", "I/O operation on closed file")
            if src.fields.get("srcgz", False) and not src.fields.get("gz", False):
                raise I.exc("SAXParseException", "not well-formed (compressed data)")
            if src.fields.get("gz") and src.fields.get("srcgz") is False:
                raise I.exc("OSError", "Not a gzipped file")
            d = src.fields.get("doc")
            if d is not None:
                return d
            c = src.fields.get("content", ())
            if src.fields.get("pos", 0):
                raise I.exc("SAXParseException", "no element found (already read)")
            if len(c) == 0:
                raise I.exc("SAXParseException", "no element found")
            root = sax_source(I, whole(I, c, ""))
            w = src.fields.get("srcenc") or ("utf-8", "strict")
            rd = None if "b" in src.fields.get("mode", "") else src.fields.get("enc", "utf-8")
            if w is not None and (w[0] != "utf-8" or rd not in (None, "utf-8")):
                return recoded(I, root, w[0], w[1], rd)
            return root
    if isinstance(src, App):
        if src.op == "content" and any(isinstance(x, App) and x.op == "part" for x in src.args):
            raise I.exc("SAXParseException", "document cut short or garbled")
        if src.op == "domtext":
            return dom_written(I, src.args[0])
        if src.op == "encode" and len(src.args) > 1:
            return recoded(I, sax_source(I, src.args[0]), src.args[1], src.args[2])
        if src.op == "decode" and len(src.args) > 1:
            inner = src.args[0]
            enc = inner.args[1:] if isinstance(inner, App) and inner.op == "encode" and len(inner.args) > 1 else ("utf-8", "strict")
            base = inner.args[0] if isinstance(inner, App) and inner.op == "encode" else inner
            return recoded(I, sax_source(I, base), enc[0], enc[1], src.args[1])
        if src.op in ("encode", "decode", "xmltext", "xmlbytes", "content"):
            return sax_source(I, src.args[0])
        if src.op == "part":
            raise I.exc("SAXParseException", "document cut short")
    if is_const(src) and isinstance(src, (str, bytes)) and not len(src):
        raise I.exc("SAXParseException", "no element found")
    if is_const(src) and isinstance(src, (str, bytes)) and src[:1] not in ("<", b"<") and src not in I.fs:
        raise I.exc("SAXParseException", "syntax error")
    key = src if not isinstance(src, Val) else I.norm(src)
    f = I.fs.get(key)
    if f is not None:
        return sax_source(I, f)
    if isinstance(src, _i.Obj) and not any(k.builtin and k.name not in ("object", "ABC", "ContentHandler") for k in src.cls.mro) or src is None:
        raise I.exc("AttributeError", "'%s' object has no attribute 'getByteStream'" % show(src))
    raise I.undecided("XML source %s" % show(src))


def sax_parse(I, src, handler):
    try:
        I.effect("XML parser")
        root = sax_source(I, src)
        I.call(I.getattr(handler, "startDocument"), [])
        drive(I, handler, root, 0)
        I.effect("XML parser")
        I.call(I.getattr(handler, "endDocument"), [])
    finally:
        if isinstance(src, _imp().Obj) and src.cls.name == "File":
            src.fields["closed"] = True     # expat closes the stream it has read, also when it fails


def portions(I, p):
    """The pieces in which a parser delivers one text: two, or as many as the scenario says."""
    n = min(I.faults.get("pieces", 2), len(p)) if isinstance(p, str) else 0
    if n < 2:
        return (p,)
    cuts = [len(p) * i // n for i in range(n + 1)]
    return tuple(p[i:j] for i, j in zip(cuts, cuts[1:]))


def drive(I, h, e, depth):
    a = I.new("AttrImpl")
    a.fields["d"] = I.mkdict([tuple(x) for x in e.fields["attrib"].payload])
    cut = e.fields.get("broken")        # where the document stops being well-formed
    if cut == "before":
        raise I.exc("SAXParseException", "not well-formed (invalid token)")
    I.call(I.getattr(h, "startElement"), [e.fields["tag"], a])
    if cut == "inside":
        raise I.exc("SAXParseException", "not well-formed (invalid token)")
    kids = e.fields["children"].payload
    ws = "\n" + "\t" * (depth + 1)
    t = e.fields["text"]
    if t is not None:
        for p in pieces(t):         # a parser may deliver one text in several pieces
            for q in portions(I, p):
                I.call(I.getattr(h, "characters"), [q])
    for c in kids:
        for q in portions(I, ws) if "pieces" in I.faults else (ws,):
            I.call(I.getattr(h, "characters"), [q])
        drive(I, h, c, depth + 1)
    if kids:
        I.call(I.getattr(h, "characters"), ["\n" + "\t" * depth])
    if cut == "end":
        raise I.exc("SAXParseException", "mismatched tag")
    I.call(I.getattr(h, "endElement"), [e.fields["tag"]])


def re_match(I, fn, pat, s, kw=None):
    """match/fullmatch/search/finditer over a text of literal pieces and digit runs of known width: the runs are replaced
    by one digit repeated, which is exact when the expression does not tell digits apart."""
    if isinstance(pat, _imp().Obj) and pat.cls.name == "Regex":
        pat = pat.fields["p"]
    if not isinstance(pat, str):
        raise I.undecided("computed regular expression")
    if not is_str(s):
        raise I.exc("TypeError", "expected string or bytes-like object")
    s = I.norm(s)
    flags = (kw or {}).get("flags", 0)
    if isinstance(s, str):
        text = s
    else:
        out = []
        for p in pieces(s):
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Run):
                out.append("5" * p.width)
            else:
                raise I.undecided("regular expression over %s" % show(p))
        text = "".join(out)
        if not digit_blind(pat):
            raise I.undecided("regular expression that tells digits apart")

    def found(m):
        o = I.new("Match")
        o.fields["m"], o.fields["s"] = m, s
        return o
    if fn == "finditer":
        return I.new("iterator", [found(m) for m in _re.finditer(pat, text, flags)])
    m = getattr(_re, fn)(pat, text, flags)
    return None if m is None else found(m)


def digit_blind(pat):
    from re import _parser
    digits = set(range(48, 58))

    def blind(t):
        if isinstance(t, _parser.SubPattern):
            return all(blind(x) for x in t)
        op, av = t
        op = str(op)
        if op in ("LITERAL", "NOT_LITERAL"):
            return av not in digits
        if op == "IN":
            lits = {x for o_, x in av if str(o_) == "LITERAL"} & digits
            for o_, x in av:
                if str(o_) == "RANGE":
                    lits |= set(range(x[0], x[1] + 1)) & digits
            return lits in (set(), digits)
        if op == "BRANCH":
            return all(blind(x) for x in av[1])
        if op in ("GROUPREF", "GROUPREF_EXISTS"):
            return False
        if isinstance(av, tuple):
            return all(blind(x) for x in av if isinstance(x, _parser.SubPattern))
        return True
    return blind(_parser.parse(pat))


def group_of(I, o, g):
    m = o.fields["m"]
    if not isinstance(g, (int, str)) or isinstance(g, str) and g not in m.re.groupindex or isinstance(g, int) and g > m.re.groups:
        raise I.exc("IndexError", "no such group")
    a, b = m.span(g)
    if a < 0:
        return None
    sl = I.new("slice")
    sl.fields.update(lower=a, upper=b, step=None)
    return str_slice(I, o.fields["s"], sl)


def re_call(I, fn, args, kw):
    pat = args[0]
    if not isinstance(pat, str):
        raise I.undecided("computed regular expression")
    if fn == "sub":
        repl, s = args[1], args[2]
    else:
        s = args[1]
    if not is_str(s):
        raise I.exc("TypeError", "expected string")
    s = I.norm(s)
    if not isinstance(s, str):
        for p in pieces(s):
            if isinstance(p, str):
                continue
            if _re.search(r"\\d|\[0-9", pat) or not all(excludes(p, c) for c in WS + "'\""):
                raise I.undecided("regular expression over %s" % show(p))
    sk, table = encode_skel(s) if not isinstance(s, str) else (s, {})
    if fn == "split":
        return I.mklist([None if x is None else decode_skel(x, table) for x in _re.split(pat, sk)])
    if fn == "findall":
        out = []
        for x in _re.findall(pat, sk):
            out.append(I.mktuple([decode_skel(y, table) for y in x]) if isinstance(x, tuple) else decode_skel(x, table))
        return I.mklist(out)
    if fn == "sub" and isinstance(repl, str):
        return decode_skel(_re.sub(pat, repl, sk), table)
    raise I.undecided("regular expression")


# --------------------------------------------------------------------- constructors
def construct(I, c, args, kw):
    _i = _imp()
    n = c.name
    if n == "list":
        src = args[0] if args else None
        r = I.mklist(I.iterate(src) if args else [])
        if args and isinstance(src, _i.Obj) and I.base_of(src) == "list":
            r.open = src.open
        return r
    if n == "tuple":
        return I.mktuple(I.iterate(args[0]) if args else [])
    if n in ("set", "frozenset"):
        s = I.mkset(I.iterate(args[0]) if args else [])
        s.cls = c
        return s
    if n in ("dict", "OrderedDict", "defaultdict", "Counter"):
        d = I.new(c, [])
        if n == "defaultdict":
            d.fields["default_factory"] = args[0] if args else None
            args = args[1:]
        if n == "Counter" and args and I.base_of(args[0]) != "dict":
            for x in I.iterate(args[0]):
                v = I.dict_get(d, x)
                I.dict_set(d, x, lin_add(0 if v is _i.MISSING else v, 1))
            return d
        dict_update(I, d, args, kw)
        return d
    if n == "deque":
        if len(args) > 1 or "maxlen" in kw:
            raise I.undecided("deque of bounded length")
        return I.new(c, I.iterate(args[0]) if args else [])
    if n == "str":
        if not args:
            return ""
        if len(args) > 1:
            return app("decode", (args[0],), "str")
        return I.to_str(args[0])
    if n == "int":
        return to_int(I, args[0]) if args else 0
    if n == "float":
        return to_float(I, args[0]) if args else 0.0
    if n == "bool":
        return I.truthy(args[0]) if args else False
    if n == "bytes":
        if args and isinstance(args[0], Val):
            return app("encode", (args[0],), "bytes")
        return b""
    if n == "object":
        if args or kw:
            raise I.exc("TypeError", "object() takes no arguments")
        return I.new(c)
    if n in ("type", "ABCMeta"):
        if len(args) == 1:
            return I.typeof(args[0])
        return new_class(I, None if n == "type" else c, args, kw)
    if n in ("staticmethod", "classmethod", "property"):
        if n == "property":
            return _i.Prop(*(list(args) + [None, None])[:3])
        return {"staticmethod": _i.StaticM, "classmethod": _i.ClassM}[n](args[0])
    if n == "slice":
        o = I.new("slice")
        a = list(args)
        if len(a) == 1:
            a = [None, a[0]]
        a += [None] * (3 - len(a))
        o.fields.update(lower=a[0], upper=a[1], step=a[2])
        return o
    if n == "datetime":
        a = list(args) + [None] * (8 - len(args))
        for i, p in enumerate(PARTS + ("tzinfo",)):
            if p in kw:
                a[i] = kw[p]
        for i in range(3, 7):
            a[i] = 0 if a[i] is None else a[i]
        return mk_dt(I, a[:7], a[7])
    if n == "timedelta":
        names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
        mult = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800}
        tot = 0
        vals = dict(zip(names, args))
        vals.update(kw)
        for p, v in vals.items():
            if p in mult:
                tot = lin_add(tot, mul(v, mult[p]))
            elif not (is_const(v) and v == 0):
                tot = lin_add(tot, divide(v, {"milliseconds": 1000, "microseconds": 1000000}[p]))
        if is_const(tot) and abs(tot) > 86399999999999:
            raise I.exc("OverflowError", "days out of range")
        return app("td", (tot,), "td")
    if n == "timezone":
        td = args[0]
        if kind(td) != "td":
            raise I.exc("TypeError", "timezone() argument 1 must be datetime.timedelta")
        t, cst = lin_parts(td.args[0])
        if all(x % 60 == 0 for x in t.values()) and cst % 60 == 0:
            m = mk_lin({a: b // 60 for a, b in t.items()}, cst // 60)
        else:
            m = divide(td.args[0], 60)
        if isinstance(m, int) and not -1440 < m < 1440:
            raise I.exc("ValueError", "offset must be strictly between -24 and 24 hours")
        return app("tz", (m,), "tz")
    if n == "UUID":
        if not args and kw:
            if "hex" in kw:
                return to_uuid(I, kw["hex"])
            raise I.undecided("UUID(%s)" % ",".join(kw))
        u = to_uuid(I, args[0])
        ver = kw.get("version")
        if ver is None or isinstance(u, Sym) and u.props.get("fresh") and ver == 4:
            return u
        if uuid_text(u) is not None and isinstance(ver, int):
            import uuid
            return app("uuid", (str(uuid.UUID(u.args[0], version=ver)),), "uuid")
        return app("uuid.version", (u, ver), "uuid")
    if n == "Element":
        return new_element(I, args[0], args[1:], kw)
    if n == "iterator":
        return I.new("iterator", [])
    if n in ("Lock", "Null"):
        return I.new(c)
    if n == "ContentHandler":
        return I.new(c)
    if n == "AttrImpl":
        a = I.new(c)
        a.fields["d"] = args[0] if args else I.mkdict()
        return a
    if c.issub(I.cls["BaseException"]):
        o = I.new(c)
        o.fields["args"] = I.mktuple(args)
        return o
    if n == "range":
        return _range(I, args, kw)
    if n == "enum.auto":
        return I.new(c)
    if n in ("enumerate", "zip", "map", "filter", "reversed"):
        return I.call(FUNCS[n], args, kw)
    raise I.undecided("constructing %s" % n)


# ------------------------------------------------------------------------- builtins
FUNCS = {}


def _range(I, a, kw):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
    r = I.new("range")
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if st == 0:
            raise I.exc("ValueError", "range() arg 3 must not be zero")
        v = range(lo, hi, st)
        if len(v) > 500:
            r.payload = list(v[:3]) + list(v[-3:])
            r.fields["big"] = True
            raise I.undecided("long range")
        r.payload = list(v)
        return r
    for x in (lo, hi, st):
        if not is_num(x):
            raise I.exc("TypeError", "range() integer expected")
    # positions of a sequence of open length: only its representatives are visited
    for o in I.open_seqs():
        L = I.list_len(o)
        n = len(o.payload)
        if st == 1:
            d = lin_add(hi, L, -1)
            if isinstance(lo, int) and isinstance(d, int) and lo >= 0:
                r.payload = [i for i in range(lo, n + d)]
                return r
        if isinstance(st, int) and st == -1:
            d = lin_add(lo, L, -1)
            if isinstance(d, int) and isinstance(hi, int):
                r.payload = [lin_add(L, -(n - i)) for i in range(n + d, hi, -1)]
                return r
    raise I.undecided("range over %s" % show(hi))


def install(I):
    _i = _imp()
    C = I.cls
    obj = _i.Cls("object", [], builtin=True)
    C["object"] = obj

    def mk(name, *bases):
        c = _i.Cls(name, [C[b] for b in bases] or [obj], builtin=True)
        C[name] = c
        return c
    for n in ("type", "int", "float", "str", "bytes", "list", "dict", "set", "frozenset", "tuple", "NoneType", "function",
              "module", "slice", "iterator", "dictview", "range", "datetime", "timedelta", "timezone", "UUID", "ParseResult",
              "Element", "Document", "Node", "File", "AttrImpl", "ContentHandler", "SaxParser", "Lock", "Partial", "Closing",
              "Suppress", "Null", "Regex", "Match", "Enum", "ABC", "staticmethod", "classmethod", "property", "struct_time", "Struct",
              "enum.auto", "complex", "date", "tzinfo", "Thread"):
        mk(n)
    mk("bool", "int")
    mk("ABCMeta", "type")
    mk("OrderedDict", "dict")
    mk("defaultdict", "dict")
    mk("Counter", "dict")
    mk("deque", "list")
    mk("NotImplementedType")
    mk("Environ")

    def exc(py):
        if py.__name__ in C:
            return
        for b in py.__bases__:
            if b is not object:
                exc(b)
        mk(py.__name__, *[b.__name__ for b in py.__bases__ if b is not object])
    for n in dir(_pyb):
        v = getattr(_pyb, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            exc(v)
    C["IOError"] = C["OSError"]
    C["EnvironmentError"] = C["OSError"]
    mk("URLError", "OSError")
    mk("HTTPError", "URLError")
    mk("SAXException", "Exception")
    mk("SAXParseException", "SAXException")
    mk("ParseError", "SyntaxError")
    mk("ExpatError", "Exception")
    B = I.builtin
    for n in ("object", "type", "int", "float", "str", "bytes", "list", "dict", "set", "frozenset", "tuple", "bool", "slice",
              "staticmethod", "classmethod", "property", "range", "complex"):
        B[n] = C[n]
    for n in ("hex", "bin", "oct", "ascii"):
        B[n] = _i.Builtin(n, const_call(getattr(_pyb, n)))
    for n, c in C.items():
        if n in ("IOError", "EnvironmentError") or c.issub(C["BaseException"]) and hasattr(_pyb, n):
            B[n] = c
    I.notimpl = I_notimpl
    B["NotImplemented"] = I_notimpl
    B["Ellipsis"] = ...
    B["True"], B["False"], B["None"] = True, False, None
    B["__name__"] = "__main__"

    def fn(name):
        def deco(f):
            B[name] = FUNCS[name] = _i.Builtin(name, f, fn_sig(name))
            return f
        return deco

    @fn("isinstance")
    def _(I, a, k):
        return I.isinstance_(a[0], a[1])

    @fn("issubclass")
    def _(I, a, k):
        cs = a[1].payload if isinstance(a[1], _i.Obj) else [a[1]]
        return any(a[0].issub(c) for c in cs)

    @fn("len")
    def _(I, a, k):
        o = a[0]
        if isinstance(o, (_i.Obj, _i.Cls)):
            m = I.user(o, "__len__")
            if m is not None:
                return I.call(m, [])
            if isinstance(o, _i.Cls) and o.members is not None:
                return len(o.members)
            b = I.base_of(o)
            if b in ("list", "tuple"):
                return I.list_len(o)
            if b in ("set", "dict", "dictview"):
                return len(I.contents(o))
            if isinstance(o, _i.Obj) and o.cls.name in ("range",):
                return len(o.payload)
            if isinstance(o, _i.Obj) and o.cls.name == "Element":
                return len(o.fields["children"].payload)
            if isinstance(o, _i.Obj) and o.cls.name == "AttrImpl":
                return len(o.fields["d"].payload)
            raise I.exc("TypeError", "object of type %s has no len()" % show(o))
        if is_str(o):
            return str_len(I.norm(o)) if isinstance(o, Val) else len(o)
        if isinstance(o, bytes):
            return len(o)
        if isinstance(o, Val) and kind(o) in ("any", "bytes"):
            return app("len", (o,), "int", taint=True)
        raise I.exc("TypeError", "object has no len()")

    @fn("super")
    def _(I, a, k):
        if len(a) == 2:
            return _i.Super(a[0], a[1])
        raise I.undecided("super called indirectly")

    @fn("getattr")
    def _(I, a, k):
        if not isinstance(a[1], str):
            raise I.undecided("getattr with a computed name")
        if len(a) > 2:
            try:
                return I.getattr(a[0], a[1])
            except _i.PyRaise as e:
                if e.value.cls.name == "AttributeError":
                    return a[2]
                raise
        return I.getattr(a[0], a[1])

    @fn("setattr")
    def _(I, a, k):
        if not isinstance(a[1], str):
            raise I.undecided("setattr with a computed name")
        I.setattr(a[0], a[1], a[2])

    @fn("delattr")
    def _(I, a, k):
        I.delattr(a[0], a[1])

    @fn("hasattr")
    def _(I, a, k):
        try:
            I.getattr(a[0], a[1])
            return True
        except _i.PyRaise as e:
            if e.value.cls.issub(C["AttributeError"]):
                return False
            raise

    @fn("callable")
    def _(I, a, k):
        o = a[0]
        if isinstance(o, _i.Obj):
            return I.find_cls_attr(o.cls, "__call__")[0] is not _i.MISSING
        return isinstance(o, (_i.Func, _i.Bound, _i.Builtin, _i.Cls))

    @fn("print")
    def _(I, a, k):
        I.output.append((tuple(a), I.loc()))
        for x in a:
            I.to_str(x)

    @fn("repr")
    def _(I, a, k):
        return repr_(I, a[0])

    @fn("format")
    def _(I, a, k):
        return format_(I, a[0], a[1] if len(a) > 1 else "")

    @fn("hash")
    def _(I, a, k):
        return I.hash_term(a[0])

    @fn("id")
    def _(I, a, k):
        o = a[0]
        if isinstance(o, (_i.Obj, _i.Cls, _i.Func)):
            return app("id", (o,), "int", taint=False)
        return app("id", (o if isinstance(o, Val) else repr(o),), "int", taint=False)

    @fn("iter")
    def _(I, a, k):
        if len(a) == 2:
            def until(f, stop):
                for _ in range(100):
                    v = I.call(f, [])
                    if I.eq(v, stop):
                        return
                    yield v
                raise I.undecided("iter(callable)")
            return I.lazy(until(*a))
        if isinstance(a[0], _i.Obj) and I.base_of(a[0]) == "iterator":
            return a[0]
        m = I.user(a[0], "__iter__")
        if m is not None:
            return I.call(m, [])
        if not isinstance(a[0], _i.Obj):
            return I.new("iterator", I.iterate(a[0]))
        I.iterable(a[0])
        return I.lazy(I.steps_of(a[0]))

    @fn("next")
    def _(I, a, k):
        it = a[0]
        if isinstance(it, _i.Obj) and I.base_of(it) == "iterator":
            v = I.pull(it)
            if v is not _i.MISSING:
                return v
            if len(a) > 1:
                return a[1]
            raise I.exc("StopIteration")
        m = I.user(it, "__next__")
        if m is not None:
            return I.call(m, [])
        raise I.exc("TypeError", "not an iterator")

    @fn("enumerate")
    def _(I, a, k):
        st = a[1] if len(a) > 1 else k.get("start", 0)
        return I.lazy(I.mktuple([lin_add(st, i), x]) for i, x in enumerate(I.iterable(a[0])))

    @fn("zip")
    def _(I, a, k):
        return I.lazy(I.mktuple(t) for t in zip(*[I.iterable(x) for x in a]))

    @fn("map")
    def _(I, a, k):
        return I.lazy(I.call(a[0], list(t)) for t in zip(*[I.iterable(x) for x in a[1:]]))

    @fn("filter")
    def _(I, a, k):
        return I.lazy(x for x in I.iterable(a[1]) if I.truthy(x if a[0] is None else I.call(a[0], [x])))

    @fn("reversed")
    def _(I, a, k):
        o = a[0]
        return I.new("iterator", list(reversed(I.iterate(o))))

    @fn("sorted")
    def _(I, a, k):
        return I.mklist(sort_items(I, I.iterate(a[0]), k.get("key"), k.get("reverse", False)))

    def minmax(name, op):
        @fn(name)
        def _(I, a, k):
            items = I.iterate(a[0]) if len(a) == 1 else list(a)
            if not items:
                if "default" in k:
                    return k["default"]
                raise I.exc("ValueError", "%s() arg is an empty sequence" % name)
            key = k.get("key")
            best = items[0]
            bk = best if key is None else I.call(key, [best])
            for x in items[1:]:
                xk = x if key is None else I.call(key, [x])
                if I.compare(op, xk, bk):
                    best, bk = x, xk
            return best
    minmax("min", ast.Lt())
    minmax("max", ast.Gt())

    @fn("sum")
    def _(I, a, k):
        t = a[1] if len(a) > 1 else k.get("start", 0)
        for x in I.iterate(a[0]):
            t = I.binop(ast.Add(), t, x)
        return t

    @fn("any")
    def _(I, a, k):
        return any(I.truthy(x) for x in I.iterable(a[0]))

    @fn("all")
    def _(I, a, k):
        return all(I.truthy(x) for x in I.iterable(a[0]))

    @fn("abs")
    def _(I, a, k):
        v = I.norm(a[0])
        if is_const(v):
            return abs(v)
        if kind(v) == "td":
            return v if I.sign(v.args[0], "td", ask={-1}) != -1 else app("td", (lin_scale(v.args[0], -1),), "td")
        return lin_scale(v, -1) if I.sign(v, "abs", ask={-1}) == -1 else v

    @fn("round")
    def _(I, a, k):
        if is_const(a[0]):
            return round(*a)
        if kind(I.norm(a[0])) == "int":
            return a[0]
        if len(a) == 1:
            # round(n / c * c) is n for every n that the floating point format holds exactly
            t, c = lin_parts(a[0])
            if c == 0 and len(t) == 1:
                (x, f), = t.items()
                if isinstance(x, App) and x.op == "div" and is_const(x.args[1]) and x.args[1] == f and kind(x.args[0]) == "int":
                    return x.args[0]
        return app("round", tuple(a), "int" if len(a) == 1 else "float")

    @fn("divmod")
    def _(I, a, k):
        return I.mktuple([binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1])])

    @fn("pow")
    def _(I, a, k):
        return binop(I, ast.Pow(), a[0], a[1])

    @fn("chr")
    def _(I, a, k):
        return chr(a[0]) if isinstance(a[0], int) else app("chr", (a[0],), "str", taint=True)

    @fn("ord")
    def _(I, a, k):
        return ord(a[0]) if isinstance(a[0], str) else app("ord", (a[0],), "int", taint=True)

    @fn("vars")
    def _(I, a, k):
        return I.getattr(a[0], "__dict__")

    @fn("dir")
    def _(I, a, k):
        raise I.undecided("dir()")

    @fn("globals")
    def _(I, a, k):
        raise I.undecided("globals()")

    @fn("locals")
    def _(I, a, k):
        raise I.undecided("locals()")

    @fn("open")
    def _(I, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if "open" in I.faults:
            raise I.exc("OSError", "open")
        return new_file(I, a[0], mode, kw=k)

    @fn("__import__")
    def _(I, a, k):
        return I.find_module(a[0])

    @fn("input")
    def _(I, a, k):
        raise I.undecided("input()")


class _NotImpl(Val):
    kind = "NotImplementedType"

    def __repr__(self):
        return "NotImplemented"


I_notimpl = _NotImpl()


def clone_graph(I, v, memo):
    """copy.deepcopy on the abstract heap."""
    _i = _imp()
    if not isinstance(v, _i.Obj):
        return v
    if v.oid in memo:
        return memo[v.oid]
    m = I.user(v, "__deepcopy__")
    if m is not None:
        r = I.call(m, [I.mkdict()])
        memo[v.oid] = r
        return r
    if v.cls.members is not None:
        return v
    if v.cls.name == "tuple":
        r = I.mktuple([clone_graph(I, x, memo) for x in v.payload])
        memo[v.oid] = r
        return r
    r = I.new(v.cls)
    memo[v.oid] = r
    for n, x in v.fields.items():
        r.fields[n] = clone_graph(I, x, memo)
    b = I.base_of(v)
    if b == "iterator":
        I.contents(v)
    if b in ("list", "set", "iterator"):
        r.payload = [clone_graph(I, x, memo) for x in v.payload]
        r.open = v.open
    elif b == "dict":
        r.payload = [[clone_graph(I, x, memo), clone_graph(I, y, memo)] for x, y in v.payload]
    else:
        r.payload = v.payload
    return r


def shallow(I, v):
    _i = _imp()
    if not isinstance(v, _i.Obj):
        return v
    m = I.user(v, "__copy__")
    if m is not None:
        return I.call(m, [])
    if v.cls.members is not None or v.cls.name == "tuple":
        return v
    r = I.new(v.cls)
    r.fields = dict(v.fields)
    b = I.base_of(v)
    if b == "dict":
        r.payload = [list(e) for e in v.payload]
    elif isinstance(v.payload, list):
        r.payload = list(v.payload)
    else:
        r.payload = v.payload
    r.open = v.open
    return r


def modules(I):
    _i = _imp()
    M = {}
    C = I.cls

    def mod_(modname, **kw):
        M[modname] = _i.ExtMod(modname, kw)
        return M[modname]

    def bi(name):
        def deco(f):
            return _i.Builtin(name, f)
        return deco

    def B(name, f):
        return _i.Builtin(name, f)

    ident = B("identity", lambda I, a, k: a[0])
    mod_("datetime", datetime=C["datetime"], timedelta=C["timedelta"], timezone=C["timezone"], date=C["date"], tzinfo=C["tzinfo"],
         UTC=app("tz", (0,), "tz"))
    C["timezone"].attrs["utc"] = app("tz", (0,), "tz")
    C["datetime"].attrs["min"] = app("dt.min", (), "dt")
    C["datetime"].attrs["max"] = app("dt.max", (), "dt")

    def now(I, a, k):
        if I.disk is not None:
            return I.disk["now"]
        t = I.fresh("time", "float", lo=0)
        I.clock.append(t)
        return t
    mod_("time", time=B("time.time", now), mktime=B("mktime", lambda I, a, k: app("mktime", (a[0],), "float")),
         monotonic=B("monotonic", now), perf_counter=B("perf_counter", now),
         time_ns=B("time_ns", lambda I, a, k: app("time_ns", (), "int", taint=True)),
         sleep=B("sleep", lambda I, a, k: None))
    mod_("calendar", timegm=B("timegm", lambda I, a, k: app("timegm", (a[0],), "int", taint=True)))

    def uuid4(I, a, k):
        return I.fresh("uuid4", "uuid", group="uuid4", fresh=True)
    mod_("uuid", uuid4=B("uuid4", uuid4), uuid1=B("uuid1", uuid4), UUID=C["UUID"])

    def urlparse(I, a, k):
        u = a[0]
        if kind(u) == "uri":
            raise I.exc("AttributeError", "urlparse of a parsed URI")
        if not is_str(u):
            raise I.exc("TypeError", "urlparse argument")
        u = I.norm(u)
        if isinstance(u, App) and u.op == "geturl":
            return u.args[0]
        return app("urlparse", (u,), "uri")

    def urlopen(I, a, k):
        if "urlopen" in I.faults:
            raise I.exc("URLError", "unreachable")
        u = I.norm(a[0]) if isinstance(a[0], Val) else a[0]
        if I.web and u not in I.web:
            raise I.exc("URLError", "unreachable")
        return new_file(I, u, "rb", web=I.web)
    up = mod_("urllib.parse", urlparse=B("urlparse", urlparse), ParseResult=C["ParseResult"],
              urlsplit=B("urlsplit", urlparse))

    def urlretrieve(I, a, k):
        src = urlopen(I, a[:1], {})
        dst = new_file(I, a[1], "wb")
        copyfileobj_(I, src, dst)
        return I.mktuple([a[1], None])

    def copyfileobj_(I, src, dst):
        METHODS["File"]["write"](I, dst, [METHODS["File"]["read"](I, src, [], {})], {})
        METHODS["File"]["close"](I, src, [], {})
        METHODS["File"]["close"](I, dst, [], {})
    ur = mod_("urllib.request", urlopen=B("urlopen", urlopen), urlretrieve=B("urlretrieve", urlretrieve))
    ue = mod_("urllib.error", URLError=C["URLError"], HTTPError=C["HTTPError"])
    mod_("urllib", parse=up, request=ur, error=ue)

    def gzopen(I, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "rb")
        if not mode.endswith("b") and not mode.endswith("t"):
            mode = mode + "b"
        if "open" in I.faults:
            raise I.exc("OSError", "open")
        p = a[0]
        if isinstance(p, _i.Obj) and p.cls.name == "File":
            if p.fields.get("closed"):
                raise I.exc("ValueError", "I/O operation on closed file")
            return new_file(I, p.fields["path"], mode, gz=True, kw=k)
        return new_file(I, p, mode.replace("t", "") if mode.endswith("t") else mode, gz=True, kw=k)
    mod_("gzip", open=B("gzip.open", gzopen), GzipFile=B("GzipFile", lambda I, a, k: gzopen(
        I, [a[0] if a else k.get("filename") or k.get("fileobj")] + ([a[1]] if len(a) > 1 else []), k)))
    mod_("io", StringIO=B("StringIO", lambda I, a, k: new_mem(I, a, "w+")),
         BytesIO=B("BytesIO", lambda I, a, k: new_mem(I, a, "w+b")),
         TextIOWrapper=B("TextIOWrapper", lambda I, a, k: a[0]))

    def new_mem(I, a, mode):
        o = I.new("File")
        o.fields.update(path=None, mode=mode, closed=False, gz=False, content=tuple(a[:1]))
        return o

    # xml
    def subelement(I, a, k):
        e = new_element(I, a[1], a[2:], k)
        p = a[0]
        if not (isinstance(p, _i.Obj) and p.cls.name == "Element"):
            raise I.exc("TypeError", "SubElement() argument 1 must be Element")
        I.touch(p.fields["children"], ("append", e))
        p.fields["children"].payload.append(e)
        return e

    def tostring(I, a, k):
        I.effect("XML writer")
        check_tree(I, a[0])
        enc = a[1] if len(a) > 1 else k.get("encoding")
        return app("xmltext", (a[0],), "str" if enc == "unicode" else "bytes")

    def et_noop(I, a, k):
        return None
    et = mod_("xml.etree.ElementTree", Element=C["Element"], SubElement=B("SubElement", subelement),
              tostring=B("tostring", tostring), indent=B("indent", et_noop), ParseError=C["ParseError"])
    mod_("xml.etree", ElementTree=et)
    mod_("xml.etree.cElementTree", **et.table)

    def dom_parse(I, a, k):
        I.effect("XML parser")
        src = a[0]
        root = src.args[0] if isinstance(src, App) and src.op in ("xmltext",) else None
        if isinstance(src, App) and src.op in ("encode", "decode"):
            root = src.args[0].args[0]
        if not (isinstance(root, _i.Obj) and root.cls.name == "Element"):
            raise I.undecided("minidom source")
        well_formed(I, root)
        d = I.new("Document")
        n = I.new("Node")
        n.fields["data"] = ""
        d.fields.update(root=root, childNodes=I.mklist([n]))
        n.fields["element"] = root
        return d
    md = mod_("xml.dom.minidom", parseString=B("minidom.parseString", dom_parse))
    mod_("xml.dom", minidom=md)

    def xparse(I, a, k):
        sax_parse(I, a[0], a[1])

    def xparse_string(I, a, k):
        sax_parse(I, a[0], a[1])
    h = mod_("xml.sax.handler", ContentHandler=C["ContentHandler"], feature_namespaces="ns", feature_external_ges="ges")

    def make_parser(I, a, k):
        p = I.new("SaxParser")
        return p
    xr = mod_("xml.sax.xmlreader", AttributesImpl=C["AttrImpl"], InputSource=ident)
    sx = mod_("xml.sax", parse=B("sax.parse", xparse), parseString=B("sax.parseString", xparse_string), handler=h,
              make_parser=B("make_parser", make_parser), ContentHandler=C["ContentHandler"], xmlreader=xr,
              SAXException=C["SAXException"], SAXParseException=C["SAXParseException"])
    mod_("xml", sax=sx, dom=M["xml.dom"], etree=M["xml.etree"])
    mod_("xml.parsers.expat", ExpatError=C["ExpatError"])

    # os / sys / platform
    import posixpath
    I.pp = posixpath

    def cpath(I, p, what):
        """A constant path on the modelled disk, in normal form."""
        if isinstance(p, _i.Obj) and p.cls.name == "Path":
            p = p.fields["path"]
        p = I.norm(p) if isinstance(p, Val) else p
        if p is None:
            raise I.exc("TypeError", "expected str, bytes or os.PathLike object, not NoneType")
        if not isinstance(p, str):
            raise I.undecided("%s of %s on the modelled disk" % (what, show(p)))
        return "/" + I.pp.normpath(p).lstrip("/") if p.startswith("/") and I.pp.sep == "/" else I.pp.normpath(p) if p else ""
    I.cpath = cpath

    def osbool(name):
        def f(I, a, k):
            p = a[0]
            if I.disk is not None and is_const(p):
                q = cpath(I, p, name)
                return (name != "isdir" and q in I.fs) or (name != "isfile" and q in I.disk["dirs"])
            if p in I.fs if is_const(p) or isinstance(p, Val) else False:
                return name in ("exists", "isfile")
            if name in I.faults:
                return I.faults[name]
            return I.branch((name, p), "os.path.%s(%s)" % (name, show(p)))
        return B("os.path." + name, f)

    def pathop(I, op, p):
        if isinstance(p, str):
            return getattr(I.pp, op)(p)
        return app(op, (p,), "str", taint=True)

    def getmtime(I, a, k):
        if I.disk is not None:
            f = I.fs.get(cpath(I, a[0], "getmtime"))
            if f is None:
                raise I.exc("FileNotFoundError", a[0])
            return f.fields.get("mtime", I.disk["now"])
        return app("getmtime", (a[0],), "float", taint=True)

    def getatime(I, a, k):
        getmtime(I, a, k)
        if I.disk is not None:      # reading a file is no change of it: last read just now
            return I.disk["now"]
        return app("getatime", (a[0],), "float", taint=True)

    def listdir(I, a, k):
        if I.disk is not None:
            d = cpath(I, a[0] if a else ".", "listdir")
            if d not in I.disk["dirs"]:
                raise I.exc("FileNotFoundError", d)
            names = [I.pp.basename(x) for x in list(I.fs) + sorted(I.disk["dirs"]) if I.pp.dirname(x) == d and x != d]
            return I.mklist(names[::-1] if I.disk.get("reverse") else names)
        return I.faults.get("listdir") or app("listdir", tuple(a), "any", taint=True)

    def remove(I, a, k):
        I.ext_calls.append(("remove", a, I.loc()))
        if I.disk is not None:
            q = cpath(I, a[0], "remove")
            if q not in I.fs:
                raise I.exc("FileNotFoundError", q)
            del I.fs[q]

    def rename(I, a, k):
        if I.disk is None:
            raise I.undecided("renaming a file")
        x, y = cpath(I, a[0], "rename"), cpath(I, a[1], "rename")
        if x not in I.fs:
            raise I.exc("FileNotFoundError", x)
        I.fs[y] = I.fs.pop(x)

    def pjoin(I, a, k):
        if all(isinstance(x, str) for x in a):
            return I.pp.join(*a)
        out = []
        for i, x in enumerate(a):
            if i:
                out.append(I.pp.sep)
            out += pieces(x)
        return mk_str(out)
    pth = mod_("os.path", isfile=osbool("isfile"), isdir=osbool("isdir"), exists=osbool("exists"), sep="/",
               join=B("join", pjoin), getmtime=B("getmtime", getmtime), getctime=B("getctime", getmtime), getatime=B("getatime", getatime),
               normpath=B("normpath", lambda I, a, k: pathop(I, "normpath", a[0])),
               abspath=B("abspath", lambda I, a, k: pathop(I, "normpath", a[0])),
               realpath=B("realpath", lambda I, a, k: pathop(I, "normpath", a[0])),    # no links in the file systems analysed
               split=B("split", lambda I, a, k: I.mktuple([pathop(I, "dirname", a[0]), pathop(I, "basename", a[0])])),
               expanduser=B("expanduser", lambda I, a, k: expanduser(I, a[0])),
               basename=B("basename", lambda I, a, k: pathop(I, "basename", a[0])),
               splitext=B("splitext", lambda I, a, k: splitext(I, a[0])),
               dirname=B("dirname", lambda I, a, k: pathop(I, "dirname", a[0])))

    def splitext(I, p):
        if isinstance(p, str):
            return I.mktuple(I.pp.splitext(p))
        raise I.undecided("splitext")

    def expanduser(I, p):
        if p is None:
            raise I.exc("TypeError", "expected str, bytes or os.PathLike object, not NoneType")
        if isinstance(p, str) and not p.startswith("~"):
            return p
        if I.disk is not None and isinstance(p, str) and (p == "~" or p.startswith("~" + I.pp.sep)):
            return I.disk["home"] + p[1:]
        return app("expanduser", (p,), "str")

    def getenv(I, a, k):
        d = a[1] if len(a) > 1 else k.get("default")
        return I.faults.get(("env", a[0]), d)

    def makedirs(I, a, k, parents=True):
        ok = a[2] if len(a) > 2 else k.get("exist_ok", False)
        I.ext_calls.append(("makedirs", a, I.loc()))
        if I.disk is not None:
            q = cpath(I, a[0], "makedirs")
            if q in I.disk["dirs"] or q in I.fs:
                if q in I.disk["dirs"] and parents and I.truthy(ok):
                    return
                raise I.exc("FileExistsError", "File exists")
            if not parents and I.pp.dirname(q) not in I.disk["dirs"]:
                raise I.exc("FileNotFoundError", q)
            while q not in I.disk["dirs"]:
                if q in I.fs:
                    raise I.exc("NotADirectoryError", q)
                I.disk["dirs"].add(q)
                q = I.pp.dirname(q)
            return
        if I.faults.get("dir-exists") and not I.truthy(ok):
            raise I.exc("FileExistsError", "File exists")

    def env_get(I, o, a, k):
        return getenv(I, a, k)

    def env_item(I, o, a, k):
        v = I.faults.get(("env", a[0]))
        if v is None:
            raise I.exc("KeyError", a[0])
        return v

    def env_has(I, o, a, k):
        return ("env", a[0]) in I.faults
    METHODS["Environ"] = {"get": env_get, "__getitem__": env_item, "__contains__": env_has}
    environ = _i.Obj(C["Environ"], 0, [])
    mod_("os", path=pth, sep="/", linesep="\n", getenv=B("getenv", getenv), environ=environ, name="posix",
         makedirs=B("makedirs", makedirs), mkdir=B("mkdir", lambda I, a, k: makedirs(I, a, k, False)),
         remove=B("remove", remove), unlink=B("unlink", remove), rename=B("rename", rename), replace=B("replace", rename),
         listdir=B("listdir", listdir))

    def copyfileobj(I, a, k):
        data = I.call(I.getattr(a[0], "read"), [])
        I.call(I.getattr(a[1], "write"), [data])

    def globf(I, a, k):
        import fnmatch
        if I.disk is None:
            raise I.undecided("glob without a modelled disk")
        q = cpath(I, a[0], "glob")
        names = listdir(I, [I.pp.dirname(q)], {}).payload if I.pp.dirname(q) in I.disk["dirs"] else []
        return I.mklist([I.pp.join(I.pp.dirname(q), n) for n in names if fnmatch.fnmatchcase(n, I.pp.basename(q))])
    mod_("shutil", copyfileobj=B("copyfileobj", copyfileobj))
    mod_("glob", glob=B("glob", globf))
    mod_("sys", platform="linux", maxsize=2 ** 63 - 1, version_info=_i.Obj(C["tuple"], 0, [3, 12, 3, "final", 0]),
         stdout=_i.Obj(C["Struct"], 0), stderr=_i.Obj(C["Struct"], 0), modules=_i.Obj(C["dict"], 0, []),
         intern=ident)
    mod_("platform", system=B("platform.system", lambda I, a, k: "Linux"))

    # language support
    mod_("enum", Enum=C["Enum"], IntEnum=C["Enum"], unique=ident, auto=C["enum.auto"])
    def abstractmethod(I, a, k):
        f = a[0]
        for g in (f.fget, f.fset) if isinstance(f, _i.Prop) else (f.f,) if isinstance(f, (_i.StaticM, _i.ClassM)) else (f,):
            if isinstance(g, _i.Func):
                g.attrs["__isabstractmethod__"] = True
        return f
    mod_("abc", abstractmethod=B("abstractmethod", abstractmethod), abstractclassmethod=B("abstractclassmethod", lambda I, a, k: _i.ClassM(a[0])),
         abstractstaticmethod=B("abstractstaticmethod", lambda I, a, k: _i.StaticM(a[0])), ABC=C["ABC"], ABCMeta=C["ABCMeta"],
         abstractproperty=B("abstractproperty", lambda I, a, k: _i.Prop(a[0])))

    def partial(I, a, k):
        p = I.new("Partial")
        p.fields.update(f=a[0], a=a[1:], kw=k)
        C["Partial"].attrs["__call__"] = B("partial", lambda I, x, kw: METHODS["Partial"]["__call__"](I, x[0], x[1:], kw))
        return _i.Builtin("partial", lambda I, x, kw: METHODS["Partial"]["__call__"](I, p, x, kw))

    def reduce_(I, a, k):
        items = I.iterate(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            if not items:
                raise I.exc("TypeError", "reduce() of empty iterable")
            acc = items.pop(0)
        for x in items:
            acc = I.call(a[0], [acc, x])
        return acc

    def total_ordering(I, a, k):
        c = a[0]

        def has(n):
            return n in c.attrs

        def mk(n, f):
            if not has(n):
                c.attrs[n] = _i.Builtin("total." + n, f)
        lt, le, gt, ge = (has(x) for x in ("__lt__", "__le__", "__gt__", "__ge__"))

        def call(n, x, y):
            return I.truthy(I.call(I.getattr(x, n), [y]))
        if lt:
            fs = {"__gt__": lambda I, x, kw: not call("__lt__", x[0], x[1]) and not I.eq(x[0], x[1]),
                  "__le__": lambda I, x, kw: call("__lt__", x[0], x[1]) or I.eq(x[0], x[1]),
                  "__ge__": lambda I, x, kw: not call("__lt__", x[0], x[1])}
        elif le:
            fs = {"__ge__": lambda I, x, kw: not call("__le__", x[0], x[1]) or I.eq(x[0], x[1]),
                  "__lt__": lambda I, x, kw: call("__le__", x[0], x[1]) and not I.eq(x[0], x[1]),
                  "__gt__": lambda I, x, kw: not call("__le__", x[0], x[1])}
        elif gt:
            fs = {"__lt__": lambda I, x, kw: not call("__gt__", x[0], x[1]) and not I.eq(x[0], x[1]),
                  "__ge__": lambda I, x, kw: call("__gt__", x[0], x[1]) or I.eq(x[0], x[1]),
                  "__le__": lambda I, x, kw: not call("__gt__", x[0], x[1])}
        else:
            fs = {"__le__": lambda I, x, kw: not call("__ge__", x[0], x[1]) or I.eq(x[0], x[1]),
                  "__gt__": lambda I, x, kw: call("__ge__", x[0], x[1]) and not I.eq(x[0], x[1]),
                  "__lt__": lambda I, x, kw: not call("__ge__", x[0], x[1])}
        for n, f in fs.items():
            if not has(n):
                c.attrs[n] = _SelfBuiltin(n, f)
        return c
    def wraps(I, a, k):
        def deco(I, b, kw):
            if isinstance(b[0], _i.Func):
                for n in ("__name__", "__doc__"):
                    b[0].attrs[n] = I.getattr(a[0], n, None)
                b[0].attrs["__wrapped__"] = a[0]
            return b[0]
        return B("wraps", deco)
    mod_("functools", wraps=B("wraps", wraps), partial=B("partial", partial), reduce=B("reduce", reduce_),
         total_ordering=B("total_ordering", total_ordering))

    def chain(I, a, k):
        return I.lazy(y for x in a for y in I.iterable(x))
    ch = _i.Cls("chain", [C["object"]], builtin=True)
    chb = _i.Builtin("chain", chain)

    class _Chain(_i.Builtin):
        pass
    it = mod_("itertools", chain=chb, islice=B("islice", lambda I, a, k: I.lazy(_it.islice(I.iterable(a[0]), *a[1:]))),
        cycle=B("cycle", lambda I, a, k: I.lazy(_it.cycle(I.iterate(a[0])))),
        count=B("count", lambda I, a, k: I.lazy(count(*a, **k))),
        repeat=B("repeat", lambda I, a, k: I.lazy(_it.repeat(*a))),
        takewhile=B("takewhile", lambda I, a, k: I.lazy(_it.takewhile(lambda x: I.truthy(I.call(a[0], [x])), I.iterable(a[1])))),
        dropwhile=B("dropwhile", lambda I, a, k: I.lazy(_it.dropwhile(lambda x: I.truthy(I.call(a[0], [x])), I.iterable(a[1])))),
        filterfalse=B("filterfalse", lambda I, a, k: I.lazy(x for x in I.iterable(a[1]) if not I.truthy(
            x if a[0] is None else I.call(a[0], [x])))),
        starmap=B("starmap", lambda I, a, k: I.lazy(I.call(a[0], I.iterate(x)) for x in I.iterable(a[1]))),
        accumulate=B("accumulate", lambda I, a, k: I.lazy(accumulate(*a, **k))),
        product=B("product", lambda I, a, k: I.lazy(I.mktuple(t) for t in _it.product(*[I.iterate(x) for x in a], **k))),
        permutations=B("permutations", lambda I, a, k: I.lazy(I.mktuple(t) for t in _it.permutations(I.iterate(a[0]), *a[1:]))),
        combinations=B("combinations", lambda I, a, k: I.lazy(I.mktuple(t) for t in _it.combinations(I.iterate(a[0]), *a[1:]))),
        pairwise=B("pairwise", lambda I, a, k: I.lazy(I.mktuple(t) for t in _it.pairwise(I.iterable(a[0])))),
        compress=B("compress", lambda I, a, k: I.lazy(x for x, y in zip(I.iterable(a[0]), I.iterable(a[1])) if I.truthy(y))),
        groupby=B("groupby", lambda I, a, k: I.lazy(groupby(*a, **k))),
        tee=B("tee", lambda I, a, k: I.mktuple([I.lazy(t) for t in _it.tee(I.iterable(a[0]), *a[1:])])),
        zip_longest=B("zip_longest", lambda I, a, k: zip_longest(I, a, k)))
    STATIC[("chain", "from_iterable")] = lambda I, a, k: chain(I, I.iterable(a[0]), {})

    def zip_longest(I, a, k):
        return I.lazy(I.mktuple(t) for t in _it.zip_longest(*[I.iterable(x) for x in a], fillvalue=k.get("fillvalue")))

    def count(start=0, step=1):
        while True:
            yield start
            start = I.binop(ast.Add(), start, step)

    def accumulate(items, func=None, initial=_i.MISSING):
        acc = initial
        if acc is not _i.MISSING:
            yield acc
        for x in I.iterable(items):
            if acc is _i.MISSING:
                acc = x
            else:
                acc = I.binop(ast.Add(), acc, x) if func is None else I.call(func, [acc, x])
            yield acc

    def groupby(items, key=None):
        group, last = None, _i.MISSING
        for x in I.iterate(items):
            kx = x if key is None else I.call(key, [x])
            if last is _i.MISSING or not I.eq(kx, last):
                if group is not None:
                    yield I.mktuple([last, I.new("iterator", group)])
                group, last = [], kx
            group.append(x)
        if group is not None:
            yield I.mktuple([last, I.new("iterator", group)])
    it.table["chain"] = _ChainBuiltin("chain", chain)

    mod_("operator", itemgetter=B("itemgetter", lambda I, a, k: _i.Builtin("itemgetter", lambda I, x, kw: I.getitem(
        x[0], a[0]) if len(a) == 1 else I.mktuple([I.getitem(x[0], y) for y in a]))),
        attrgetter=B("attrgetter", lambda I, a, k: _i.Builtin("attrgetter", lambda I, x, kw: I.getattr(x[0], a[0]))),
        methodcaller=B("methodcaller", lambda I, a, k: _i.Builtin("methodcaller", lambda I, x, kw: I.call(
            I.getattr(x[0], a[0]), a[1:], k))),
        eq=B("eq", lambda I, a, k: I.compare(ast.Eq(), a[0], a[1])),
        ne=B("ne", lambda I, a, k: I.compare(ast.NotEq(), a[0], a[1])),
        lt=B("lt", lambda I, a, k: I.compare(ast.Lt(), a[0], a[1])),
        le=B("le", lambda I, a, k: I.compare(ast.LtE(), a[0], a[1])),
        gt=B("gt", lambda I, a, k: I.compare(ast.Gt(), a[0], a[1])),
        ge=B("ge", lambda I, a, k: I.compare(ast.GtE(), a[0], a[1])))
    mod_("collections", OrderedDict=C["OrderedDict"], defaultdict=C["defaultdict"], Counter=C["Counter"], deque=C["deque"])
    mod_("copy", copy=B("copy", lambda I, a, k: shallow(I, a[0])), deepcopy=B("deepcopy", lambda I, a, k: clone_graph(I, a[0], {})))

    def closing(I, a, k):
        o = I.new("Closing")
        o.fields["o"] = a[0]
        return o

    def suppress(I, a, k):
        o = I.new("Suppress")
        o.fields["c"] = a
        return o
    mod_("contextlib", closing=B("closing", closing), suppress=B("suppress", suppress),
         nullcontext=B("nullcontext", lambda I, a, k: I.new("Null")))
    mod_("threading", Lock=C["Lock"], RLock=C["Lock"])

    def regex(I, a, k):
        o = I.new("Regex")
        o.fields["p"] = a[0].fields["p"] if isinstance(a[0], _i.Obj) else a[0]
        o.fields["flags"] = a[1] if len(a) > 1 else k.get("flags", 0)
        return o

    def re_fn(fn):
        def f(I, a, k):
            return re_match(I, fn, a[0], a[1], {"flags": a[2] if len(a) > 2 else k.get("flags", 0)})
        return B("re." + fn, f)
    flags = {n: int(getattr(_re, n)) for n in ("I", "IGNORECASE", "X", "VERBOSE", "S", "DOTALL", "M", "MULTILINE", "A", "ASCII", "U")}
    mod_("re", escape=B("re.escape", const_call(_re.escape)), compile=B("re.compile", regex), split=B("re.split", lambda I, a, k: re_call(I, "split", a, k)),
         findall=B("re.findall", lambda I, a, k: re_call(I, "findall", a, k)),
         sub=B("re.sub", lambda I, a, k: re_call(I, "sub", a, k)),
         match=re_fn("match"), fullmatch=re_fn("fullmatch"), search=re_fn("search"), finditer=re_fn("finditer"), **flags)

    def pathlike(b):
        return _i.Builtin(b.name, lambda I, a, k: b.fn(I, [fspath(I, x) for x in a], k))
    for n in ("os", "os.path"):
        M[n].table.update((x, pathlike(v)) for x, v in list(M[n].table.items()) if isinstance(v, _i.Builtin))
    M["os"].table["fspath"] = _i.Builtin("fspath", lambda I, a, k: fspath(I, a[0]))

    def shlex_split(I, a, k):
        s = I.norm(a[0])
        if isinstance(s, str):
            import shlex
            return I.mklist(shlex.split(s))
        for p in pieces(s):
            if not isinstance(p, str) and not all(excludes(p, c) for c in WS + "'\"\\"):
                raise I.undecided("shlex over %s" % show(p))
        import shlex
        sk, t = encode_skel(s)
        try:
            return I.mklist([decode_skel(x, t) for x in shlex.split(sk)])
        except ValueError:
            raise I.exc("ValueError", "shlex")
    mod_("shlex", split=B("shlex.split", shlex_split))
    mod_("math", floor=B("floor", lambda I, a, k: floordiv(a[0], 1)), inf=float("inf"), isclose=B("isclose", lambda I, a, k: _und(
        I, "isclose")), isnan=B("isnan", lambda I, a, k: False), trunc=B("trunc", lambda I, a, k: to_int(I, a[0])))
    mod_("typing", Any=None, Optional=C["object"], List=C["list"], Dict=C["dict"], Set=C["set"], Tuple=C["tuple"],
         Union=C["object"], Iterable=C["object"], TYPE_CHECKING=False, Callable=C["object"], Iterator=C["object"])
    mod_("warnings", warn=B("warn", lambda I, a, k: None))
    mod_("types", MappingProxyType=ident)
    for n, m in M.items():
        mod_sigs(n, m)
    return M


def on_platform(I, name):
    """Let the analysed program run on sys.platform == name (before anything is imported)."""
    import ntpath
    import posixpath
    win = name == "win32"
    I.pp = ntpath if win else posixpath
    I.ext["sys"].table["platform"] = name
    system = {"win32": "Windows", "darwin": "Darwin"}.get(name, "FreeBSD" if name.startswith("freebsd") else "Linux")
    I.ext["platform"].table["system"] = _i.Builtin("platform.system", lambda I, a, k: system)
    I.ext["os"].table.update(name="nt" if win else "posix", sep=I.pp.sep, linesep="\r\n" if win else "\n")
    I.ext["os.path"].table["sep"] = I.pp.sep


def mod_sigs(name, m):
    """The functions of a library module take the arguments CPython documents."""
    import importlib
    import sys
    if name.split(".")[0] not in sys.stdlib_module_names:
        return
    try:
        h = importlib.import_module(name)
    except Exception:
        return
    for a, v in m.table.items():
        f = getattr(h, a, None)
        if type(v) is _i.Builtin and v.sig is None and inspect.isroutine(f) and v.name != "identity":
            if (name, a) not in _SIGS:
                try:
                    _SIGS[name, a] = inspect.signature(f)
                except (ValueError, TypeError):
                    _SIGS[name, a] = None
            if _SIGS[name, a] is not None:
                m.table[a] = _i.Builtin(v.name, v.fn, _SIGS[name, a])


def _und(I, why):
    raise I.undecided(why)


class _SelfBuiltin(_i.Func):
    """A library function installed as a method of a user class."""

    def __init__(self, name, f):
        self.name, self.f = name, f
        self.node = None
        self.attrs = {}
        self.owner = None
        self.module = None
        self.clsname = None


class _ChainBuiltin(_i.Builtin):
    pass
