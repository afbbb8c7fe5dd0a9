"""Timer: unit consistency and decomposition of durations, by dataflow of clock readings."""
from ..terms import AStr, App, is_const, is_num, lin_add, lin_parts, lin_scale, pieces, kind

METHOD = ("Abstract interpretation of XTimer with every clock reading an unknown: the duration reported must be 1000 times "
          "the difference of the two readings (a unit/provenance analysis), and the pretty-printed parts must add up to "
          "the duration with div/mod by one unit expanded algebraically.")
RULE = "duration == 1000*(reading at stop or now - reading at start or creation); sum(part*unit) == duration"

UNIT = {"days": 86400000, "hours": 3600000, "minutes": 60000, "seconds": 1000, "milliseconds": 1}


def expand(v):
    """Rewrite mod(a, n) as a - n*floordiv(a, n)."""
    if is_const(v):
        return v
    terms, c = lin_parts(v)
    out = c
    for t, k in terms.items():
        if isinstance(t, App) and t.op == "mod":
            a, n = expand(t.args[0]), t.args[1]
            t = lin_add(a, lin_scale(fdiv(a, n), n), -1)
        elif isinstance(t, App) and t.op == "floordiv":
            t = fdiv(expand(t.args[0]), t.args[1])
        out = lin_add(out, lin_scale(t, k))
    return out


def fdiv(a, n):
    from ..terms import floordiv
    return floordiv(a, n)


def run(k):
    def reading(k, fn):
        n = len(k.I.clock)
        r = fn()
        k.ok(len(k.I.clock) > n, "the clock is not read by %s" % k.last)
        return r, k.I.clock[-1]

    def ms(k, a, b):
        return lin_scale(lin_add(b, a, -1), 1000)

    def duration(k, start, stops):
        t, t0 = reading(k, lambda: k.new("XTimer"))
        for _ in range(start):
            _, t0 = reading(k, lambda: k.m(t, "start"))
        d, t1 = reading(k, lambda: k.m(t, "get_duration"))
        at = k.last
        k.same(d, ms(k, t0, t1), "duration of a running timer", at)
        for _ in range(stops):
            _, t1 = reading(k, lambda: k.m(t, "stop"))
        if stops:
            if k.truth(k.eq(t0, t1)):
                return
            n = len(k.I.clock)
            k.same(k.m(t, "get_duration"), ms(k, t0, t1), "duration of a stopped timer")
            k.same(k.m(t, "get_duration"), ms(k, t0, t1), "duration of a stopped timer asked again")
    for start in (0, 1, 2):
        for stops in (0, 1, 2):
            k.scenario("duration/%d-starts/%d-stops" % (start, stops), lambda k, a=start, b=stops: duration(k, a, b))

    def restart(k):
        t, _ = reading(k, lambda: k.new("XTimer"))
        k.m(t, "stop")
        _, t0 = reading(k, lambda: k.m(t, "start"))
        d, t1 = reading(k, lambda: k.m(t, "get_duration"))
        k.same(d, ms(k, t0, t1), "duration of a timer started again")
    k.scenario("restart", restart)

    def apart(k):
        a, a0 = reading(k, lambda: k.new("XTimer"))
        b, b0 = reading(k, lambda: k.new("XTimer"))
        k.m(b, "start")
        k.m(b, "stop")
        d, t1 = reading(k, lambda: k.m(a, "get_duration"))
        k.same(d, ms(k, a0, t1), "duration of a timer after another one was used")
    k.scenario("apart", apart)

    def units(k):
        for n, v in (("DAY_MILLIS", 86400000), ("HOUR_MILLIS", 3600000), ("MINUTE_MILLIS", 60000), ("SECOND_MILLIS", 1000)):
            k.same(k.const("XTimer", n), v, n)
    k.scenario("units", units)

    def fmt(k, lo, hi):
        m = k.int("millis", lo=lo, hi=hi)
        s = k.static("XTimer", "format_duration", m)
        total, last = 0, None
        ps = pieces(k.I.norm(s))
        txt, vals = "", []
        for p in ps:
            if isinstance(p, str):
                txt += p
            else:
                txt += "\0"
                vals.append(p)
        parts = txt.split(", ")
        i = 0
        for part in parts:
            w = part.split(" ")
            k.ok(len(w) == 2 and w[1] in UNIT, "a part of the text is not '<number> <unit>': %r" % part)
            if w[0] == "\0":
                v = vals[i]
                i += 1
                k.ok(isinstance(v, App) and v.op == "str", "a part of the text is no number")
                v = v.args[0]
            else:
                k.ok(w[0].isdigit(), "a part of the text is no number: %r" % part)
                v = int(w[0])
            u = UNIT[w[1]]
            k.ok(last is None or u < last, "units of the text are not descending")
            last = u
            total = lin_add(total, lin_scale(v, u))
        k.ok(last == 1, "the text has no milliseconds")
        k.same(expand(total), expand(k.I.norm(m)), "the parts of the text add up to another duration")
    for lo, hi in ((0, 999), (0, 59999), (0, 3599999), (0, 86399999), (0, None), (1001, None), (86400001, None)):
        k.scenario("format/%s..%s" % (lo, hi), lambda k, a=lo, b=hi: fmt(k, a, b))



    def often(k, n):
        t, t0 = reading(k, lambda: k.new("XTimer"))
        for i in range(n):
            d, t1 = reading(k, lambda: k.m(t, "get_duration"))
            k.same(d, ms(k, t0, t1), "duration of a running timer, asked for the %d. time" % (i + 1))
    for n in (9, 33):
        k.scenario("often/%d" % n, lambda k, n=n: often(k, n))

    def said(k):
        """The text of a stopped timer is the text of its duration, to the last fraction."""
        t, t0 = reading(k, lambda: k.new("XTimer"))
        _, t1 = reading(k, lambda: k.m(t, "stop"))
        if k.truth(k.eq(t0, t1)):
            return
        d = k.m(t, "get_duration")
        k.same(k.m(t, "get_duration_string"), k.static("XTimer", "format_duration", d), "text of a stopped timer's duration")
    k.scenario("said", said)

    def text(k, n):
        """The parts of the text of a given duration add up to it."""
        s = k.I.norm(k.static("XTimer", "format_duration", n))
        k.ok(isinstance(s, str), "the text of a known duration is not known")
        total, last = 0, None
        for part in s.split(", "):
            w = part.split(" ")
            k.ok(len(w) == 2 and w[0].isdigit() and w[1] in UNIT, "a part of the text is not '<number> <unit>': %r" % part)
            k.ok(last is None or UNIT[w[1]] < last, "units of the text are not descending")
            last = UNIT[w[1]]
            total += int(w[0]) * last
        k.same(total, n, "the parts of the text %r add up" % s)
    for n in (0, 1, 999, 1000, 1001, 59999, 60000, 60001, 3599999, 3600000, 3600001, 3661001, 86399999, 86400000, 86400001, 90061001,
              31 * 86400000 + 5, 99 * 86400000, 100 * 86400000 + 1, 365 * 86400000, 366 * 86400000 - 1, 10000 * 86400000 + 3723004, 10 ** 15 + 7):
        k.scenario("text/%d" % n, lambda k, n=n: text(k, n))


MIN_SCENARIOS = 15
