"""Ordered insertion into a trace, by abstract interpretation of insert_ordered."""

from .common import SIZES, moments, shuffled

METHOD = ("Abstract interpretation of insert_ordered on traces of symbolic timestamps; the abstract state is partitioned on "
          "every comparison of timestamps, and on each partition order, position and content of the result are judged.")
RULE = "sorted trace + insert_ordered(e) => sorted, e after every event not later, index returned == position, rest kept"

TS = "time:timestamp"


def run(k):
    def ev(k, t=None):
        e = k.event(k.attr("literal", k.key("name")))
        if t is not None:
            k.put(e, k.attr("timestamp", TS, t))
        return e

    def le(k, a, b):
        return k.truth(k.cmp("<=", a, b))

    def check(k, t, before, e, got, at):
        now = k.items(t)
        k.same(len(now), len(before) + 1, "length after insert_ordered", at)
        pos = [i for i, x in enumerate(now) if x is e]
        k.same(len(pos), 1, "occurrences of the inserted event", at)
        k.same(got, pos[0], "index returned by insert_ordered", at)
        k.same(tuple(x for x in now if x is not e), tuple(before), "the other events after insert_ordered", at)
        return pos[0], now

    def sorted_(k, n, tz):
        ts = [k.dt("t%d" % i, tz) for i in range(n)]
        for a, b in zip(ts, ts[1:]):
            if not le(k, a, b):
                from ..interp import Infeasible
                raise Infeasible()
        evs = [ev(k, t) for t in ts]
        t = k.trace(evs, [k.attr("literal", k.key("tr"))])
        x = k.dt("x", tz)
        e = ev(k, x)
        got = k.m(t, "insert_ordered", e)
        at = k.last
        p, now = check(k, t, evs, e, got, at)
        for y in ts[:p]:
            k.same(le(k, y, x), True, "an event placed before the inserted one is later", at)
        for y in ts[p:]:
            k.same(le(k, y, x), False, "the inserted event comes before one that is not later", at)
    top = 4 if not k.thorough else 6
    for n in range(0, top):
        for tz in ("utc", "naive"):
            k.scenario("sorted/%d/%s" % (n, tz), lambda k, n=n, tz=tz: sorted_(k, n, tz))

    def build(k, n):
        t = k.trace()
        ts = [k.dt("t%d" % i) for i in range(n)]
        evs = []
        for x in ts:
            e = ev(k, x)
            before = k.items(t)
            got = k.m(t, "insert_ordered", e)
            check(k, t, before, e, got, k.last)
            evs.append((e, x))
        order = [x for o in k.items(t) for e, x in evs if e is o]
        for a, b in zip(order, order[1:]):
            k.same(le(k, a, b), True, "a trace built with insert_ordered is not sorted")
    for n in range(1, 4 if not k.thorough else 5):
        k.scenario("build/%d" % n, lambda k, n=n: build(k, n))

    def without(k, n, m):
        evs = [ev(k, k.dt("t%d" % i)) if (m >> i) & 1 else ev(k) for i in range(n)]
        t = k.trace(evs)
        e = ev(k)
        got = k.m(t, "insert_ordered", e)
        p, now = check(k, t, evs, e, got, k.last)
        k.same(p, n, "position of an event without timestamp")
    for n in (0, 1, 2):
        for m in range(1 << n):
            k.scenario("no-timestamp/%d/%d" % (n, m), lambda k, n=n, m=m: without(k, n, m))

    def mixed(k, n, m):
        evs = [ev(k, k.dt("t%d" % i)) if (m >> i) & 1 else ev(k) for i in range(n)]
        t = k.trace(evs)
        e = ev(k, k.dt("x"))
        got = k.m(t, "insert_ordered", e)
        check(k, t, evs, e, got, k.last)
    for n in (1, 2, 3):
        for m in range((1 << n) - 1):
            k.scenario("some-without/%d/%d" % (n, m), lambda k, n=n, m=m: mixed(k, n, m))

    # long traces: every place of insertion, with times that occur once, twice, thrice or throughout
    def long(k, times, new):
        at = moments(k)
        evs = [ev(k, k.I.call(at, [i])) for i in times]
        t = k.trace(evs)
        e = ev(k, None if new is None else k.I.call(at, [new]))
        p, now = check(k, t, evs, e, k.m(t, "insert_ordered", e), k.last)
        k.same(p, len([i for i in times if new is None or i <= new]), "place of an event in a trace of %d" % len(times))
    for n in (5, 6, 7, 8, 9, 12, 16, 17):
        for same in (1, 2, 3, 4):
            times = [2 * (i // same) for i in range(n)]
            for new in sorted(set([-1] + [x + d for x in times for d in (0, 1)])):
                k.scenario("long/%d/%d/%d" % (n, same, new), lambda k, t=times, new=new: long(k, t, new))
        k.scenario("long/%d/one-time" % n, lambda k, n=n: long(k, [4] * n, 4))
        k.scenario("long/%d/none" % n, lambda k, n=n: long(k, list(range(n)), None))
    for n in (33, 64, 100, 257):
        times = [2 * (i // 3) for i in range(n)]
        for new in sorted({-1, 0, 1, times[n // 3], times[n // 2], times[n // 2] + 1, times[-1] - 1, times[-1], times[-1] + 1}):
            k.scenario("long/%d/%d" % (n, new), lambda k, t=times, new=new: long(k, t, new))

    def built(k, order):
        at, t = moments(k), k.trace()
        evs = {}
        for i in order:
            evs[i] = ev(k, k.I.call(at, [i]))
            before = k.items(t)
            check(k, t, before, evs[i], k.m(t, "insert_ordered", evs[i]), k.last)
        k.same(tuple(k.items(t)), tuple(evs[i] for i in sorted(evs)), "a trace built with insert_ordered from %d events" % len(order))
    for n in SIZES[:4]:
        for nm, order in (("rising", list(range(n))), ("falling", list(range(n))[::-1]), ("shuffled", shuffled(n))):
            k.scenario("built/%d/%s" % (n, nm), lambda k, o=order: built(k, o))


MIN_SCENARIOS = 25
