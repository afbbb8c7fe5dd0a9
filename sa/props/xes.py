"""What a log says, in the terms of the XES format (shared by the reader/writer properties)."""
from .. import libs
from ..terms import kind

BREAKS = "\n\t\r"


def key(k, name, how="plain", **p):
    """Attribute key: plain, with the prefix of a known extension, or with an unknown prefix."""
    if how == "plain":
        return k.key(name, excl=":" + BREAKS, **p)
    if how == "known":
        return k.plus("concept:", k.phrase(name, group="key", excl=BREAKS, **p))
    if how == "two":
        return k.plus("time:", k.plus(k.word(name + ".a", group="key", excl=": " + BREAKS), ":b"))
    return k.plus(k.plus(k.word(name + ".prefix", excl=": oei" + BREAKS), ":"), k.phrase(name, group="key", excl=BREAKS))


def ext_of(k, how):
    return {"known": lambda: k.new("XConceptExtension"), "two": lambda: k.new("XTimeExtension")}.get(how, lambda: None)()


def attr(k, kd, name, how="plain", tz="utc"):
    kw = {"excl": BREAKS} if kd == "literal" else {"tz": tz} if kd == "timestamp" else {}
    return k.attr(kd, key(k, name + ".k", how), ext=ext_of(k, how), name=name + ".v", **kw)


def val(k, v):
    if kind(v) == "dt":
        t = k.I.norm(v)
        tz = libs.dt_tz(k.I, t)
        return ("time", tuple(k.I.norm(libs.dt_part(t, p)) for p in libs.PARTS[:6]),
                k.I.norm(libs.floordiv(libs.dt_part(t, "microsecond"), 1000)),
                0 if tz is None else k.I.norm(libs.tz_minutes(k.I, tz)))
    return v


def view(k, a, ext=True):
    """Kind, key, extension, value and nested attributes; for a list or container: the members in order."""
    cn = k.kind_of(a)
    out = [cn, k.get(a, "get_key"), k.get(a, "get_extension") if ext else None]
    if cn in ("XAttributeList", "XAttributeContainer"):
        out.append(tuple(view(k, x, ext) for x in k.items(k.get(a, "get_collection"))))
        out.append(())
    else:
        out.append(val(k, k.value_of(a)))
        out.append(views(k, a, ext))
    return tuple(out)


def views(k, o, ext=True):
    from ..terms import show
    return tuple(sorted(((n, view(k, a, ext)) for n, a in k.attrs(o)), key=lambda t: show(t[0])))


def tview(k, t, ext=True):
    return (views(k, t, ext), tuple(views(k, e, ext) for e in k.items(t)))


def lview(k, g, ext=True):
    return (views(k, g, ext), tuple(tview(k, t, ext) for t in k.items(g)))


def judge(k, got, want, at=None, ext=True):
    """Log got says what the description want says."""
    at = at or k.last
    k.ok(k.isinst(got, "XLog"), "reading gives no log", at)
    d = lview(k, got, ext)
    k.same(len(d[1]), len(want[1]), "number of traces", at)
    for i, (t, u) in enumerate(zip(d[1], want[1])):
        k.same(len(t[1]), len(u[1]), "number of events of trace %d" % i, at)
    same(k, d[0], want[0], "attributes of the log", at)
    for i, (t, u) in enumerate(zip(d[1], want[1])):
        same(k, t[0], u[0], "attributes of trace %d" % i, at)
        for j, (e, f) in enumerate(zip(t[1], u[1])):
            same(k, e, f, "attributes of event %d of trace %d" % (j, i), at)


def same(k, got, want, what, at):
    k.same(len(got), len(want), what + " (how many)", at)
    for (n, a), (m, b) in zip(got, want):
        k.same(n, m, what + " (key)", at)
        k.same(a[0], b[0], what + " (kind)", at)
        k.same(a, b, what, at)
