"""Time bounds, by abstract interpretation of XTimeBounds over symbolic dates."""

from .common import BIG, SIZES, moments, shuffled

METHOD = ("Abstract interpretation of XTimeBounds.register/is_within over sequences of symbolic dates given directly, as "
          "events or as other bounds; partitioned on every date comparison.")
RULE = "start == min and end == max of the registered dates; is_within(d) <=> start <= d <= end; no dates => None/False"

TS = "time:timestamp"


def run(k):
    def le(k, a, b):
        return k.truth(k.cmp("<=", a, b))

    def ev(k, t=None):
        e = k.event(k.attr("literal", k.key("name")))
        if t is not None:
            k.put(e, k.attr("timestamp", TS, t))
        return e

    def judge(k, b, ds):
        s, e = k.m(b, "get_start_date"), k.m(b, "get_end_date")
        at = k.last
        if not ds:
            k.isnone(s, "start of bounds without dates")
            k.isnone(e, "end of bounds without dates")
            return
        k.ok(s is not None and e is not None, "bounds with dates have no start or end", at)
        for d in ds:
            k.same(le(k, s, d), True, "a registered date lies before the start", at)
            k.same(le(k, d, e), True, "a registered date lies after the end", at)
        k.ok(any(k.truth(k.eq(s, d)) for d in ds), "the start is no registered date", at)
        k.ok(any(k.truth(k.eq(e, d)) for d in ds), "the end is no registered date", at)

    def seq(k, n, how, tz):
        b = k.new("XTimeBounds")
        ds = [k.dt("d%d" % i, tz) for i in range(n)]
        judge(k, b, [])
        for i, d in enumerate(ds):
            h = how if how != "mixed" else ("date", "event", "bounds")[i % 3]
            if h == "date":
                k.m(b, "register", d)
            elif h == "event":
                k.m(b, "register", ev(k, d))
            else:
                o = k.new("XTimeBounds")
                k.m(o, "register", d)
                k.m(b, "register", o)
                judge(k, o, [d])
        judge(k, b, ds)
    for n in (0, 1, 2, 3) if not k.thorough else (0, 1, 2, 3, 4):
        for how in ("date", "event", "bounds", "mixed"):
            for tz in ("utc", "naive"):
                k.scenario("register/%s/%d/%s" % (how, n, tz), lambda k, n=n, h=how, tz=tz: seq(k, n, h, tz))

    def merged(k, m, n):
        a, b = k.new("XTimeBounds"), k.new("XTimeBounds")
        x = [k.dt("x%d" % i) for i in range(m)]
        y = [k.dt("y%d" % i) for i in range(n)]
        for d in x:
            k.m(a, "register", d)
        for d in y:
            k.m(b, "register", d)
        k.m(a, "register", b)
        judge(k, a, x + y)
        judge(k, b, y)
    for m in (0, 1, 2):
        for n in (0, 1, 2):
            k.scenario("merge/%d+%d" % (m, n), lambda k, m=m, n=n: merged(k, m, n))

    def nothing(k):
        b = k.new("XTimeBounds")
        k.m(b, "register", ev(k))
        judge(k, b, [])
        k.same(k.truth(k.m(b, "is_within", k.dt("d"))), False, "a date lies within empty bounds")
        d = k.dt("d2")
        k.m(b, "register", d)
        k.m(b, "register", ev(k))
        k.m(b, "register", k.new("XTimeBounds"))
        judge(k, b, [d])
        k.same((k.m(b, "get_start_date"), k.m(b, "get_end_date")), (d, d), "bounds of one date")
    k.scenario("events-without-timestamp", nothing)

    def within(k, n):
        b = k.new("XTimeBounds")
        ds = [k.dt("d%d" % i) for i in range(n)]
        for d in ds:
            k.m(b, "register", d)
        x = k.dt("x")
        got = k.truth(k.m(b, "is_within", x))
        at = k.last
        k.same(got, le(k, k.m(b, "get_start_date"), x) and le(k, x, k.m(b, "get_end_date")), "is_within", at)
        for d in ds:
            k.same(k.truth(k.m(b, "is_within", d)), True, "a registered date is not within the bounds")
        k.same((k.m(b, "get_start_date"), k.m(b, "get_end_date")), (k.m(b, "get_start_date"), k.m(b, "get_end_date")),
               "bounds after asking")
    for n in (1, 2, 3):
        k.scenario("within/%d" % n, lambda k, n=n: within(k, n))

    def many(k, n, how, order):
        at, b = moments(k), k.new("XTimeBounds")
        for j, i in enumerate(order):
            d = k.I.call(at, [i])
            h = how if how != "mixed" else ("date", "event", "bounds")[j % 3]
            if h == "bounds":
                o = k.new("XTimeBounds")
                k.m(o, "register", d)
                k.m(o, "register", k.I.call(at, [order[0]]))
                d = o
            k.m(b, "register", ev(k, d) if h == "event" else d)
        lo, hi = k.I.call(at, [min(order)]), k.I.call(at, [max(order)])
        k.same(k.truth(k.eq(k.m(b, "get_start_date"), lo)), True, "the start of %d times is not the earliest" % n)
        k.same(k.truth(k.eq(k.m(b, "get_end_date"), hi)), True, "the end of %d times is not the latest" % n)
        for i in (-1, 0, n // 2, n - 1, n):
            k.same(k.truth(k.m(b, "is_within", k.I.call(at, [i]))), 0 <= i < n, "a time is within bounds of %d times" % n)
    for n in SIZES + BIG[:1]:
        for how in ("date", "event", "bounds", "mixed"):
            for nm, order in (("rising", list(range(n))), ("falling", list(range(n))[::-1]), ("shuffled", shuffled(n))):
                k.scenario("many/%d/%s/%s" % (n, how, nm), lambda k, n=n, h=how, o=order: many(k, n, h, o))


MIN_SCENARIOS = 40
