"""Timestamp text, by abstract interpretation of the writer and of the reader of timestamps."""
from .. import libs
from ..terms import app, lin_scale, mk_str, run as digits
METHOD = ("Abstract interpretation of XAttributeTimestamp.__str__ and parse_date_time over symbolic dates (every field a symbolic "
          "digit run) and UTC offsets: the text is a sequence of literals and digit runs, and reading it back must yield the "
          "same field terms.  Valid and invalid forms of the text are enumerated by shape.")
RULE = ("parse(str(t)) has the fields of t to the millisecond and its UTC offset (none: UTC); every xs:dateTime form is read field "
        "by field; text of any other form gives None; milliseconds round-trip")
ASSUMES = ["whether a field without its leading zero, or an offset of 60 minutes and more, is read is not judged",
           "years have four digits", "UTC offsets are whole minutes",
           "UTC offsets of hours and minutes: symbolic +-(1..14):(0..59) and the constants listed in the scenarios"]

ZONES = {"utc": 0, "+00:30": 30, "-00:30": -30, "+05:45": 345, "-09:30": -570, "+14:00": 840, "-12:00": -720, "-00:01": -1,
         "+01:00": 60, "-01:00": -60, "+10:00": 600, "-10:00": -600}


def fields(k, t):
    return tuple(k.I.norm(libs.dt_part(t, p)) for p in libs.PARTS[:6])


def offset(k, t):
    tz = libs.dt_tz(k.I, t)
    return None if tz is None else k.I.norm(libs.tz_minutes(k.I, tz))


def run(k):
    f = lambda k: k.func("opyenxes.utils.XsDateTimeConversion", "parse_date_time")

    def zone(k, z):
        if z in ("+sym", "-sym"):
            return k.zone("z", 1 if z[0] == "+" else -1)
        if z == "naive":
            return "naive"
        if z == "named+":
            return k.named_zone("CEST", 120)
        if z == "named-":
            return k.named_zone("NST", -150)
        if z == "named0":
            return k.named_zone("GMT", 0)
        return app("tz", (ZONES[z],), "tz")

    def judge(k, t, u, naive_zero=True):
        at = k.last
        k.ok(u is not None, "the text of a timestamp is not read back", at)
        k.same(fields(k, u), fields(k, t), "date and time after writing and reading", at)
        us = libs.floordiv(libs.dt_part(t, "microsecond"), 1000)
        k.same(libs.dt_part(u, "microsecond"), lin_scale(us, 1000), "fraction after writing and reading", at)
        k.same(offset(k, u), offset(k, t) or 0, "UTC offset after writing and reading", at)

    def trip(k, z):
        t = k.dt("t", tz=zone(k, z))
        a = k.attr("timestamp", k.key("key"), t)
        txt = k.str(a)
        u = k.call(f(k), txt)
        judge(k, t, u)
        # once more, from what was read
        b = k.attr("timestamp", k.key("key2"), u)
        v = k.call(f(k), k.str(b))
        judge(k, t, v)
        k.same(k.str(b), k.str(k.attr("timestamp", k.key("key3"), v)), "text of the timestamp read back twice")
        c = k.attr("timestamp", k.key("key4"), k.dt("other"))
        k.m(c, "set_value", t)
        k.same(k.str(c), txt, "text of a timestamp after set_value")
    for z in ["naive", "+sym", "-sym", "named+", "named-", "named0"] + sorted(ZONES):
        k.scenario("trip/" + z, lambda k, z=z: trip(k, z))

    # every form of the text -------------------------------------------------
    def form(k, frac, z):
        F = {"Y": k.int("Y", lo=1000, hi=9999), "m": k.int("m", lo=1, hi=12), "d": k.int("d", lo=1, hi=28),
             "H": k.int("H", lo=0, hi=23), "M": k.int("M", lo=0, hi=59), "S": k.int("S", lo=0, hi=59)}
        ps = [digits(F["Y"], 4), "-", digits(F["m"], 2), "-", digits(F["d"], 2), "T", digits(F["H"], 2), ":",
              digits(F["M"], 2), ":", digits(F["S"], 2)]
        us = 0
        if frac:
            n = min(frac, 6)
            x = k.int("frac", lo=0, hi=10 ** n - 1)
            ps += [".", digits(x, n)]
            us = lin_scale(x, 10 ** (6 - n))
            if frac > 6:
                ps.append(digits(k.int("beyond", lo=0, hi=10 ** (frac - 6) - 1), frac - 6))
        if z == "Z":
            ps.append("Z")
            want = 0
        elif z == "":
            want = 0
        elif z in ("+sym", "-sym"):
            tz = k.zone("z", 1 if z[0] == "+" else -1)
            want = tz.args[0]
            ps += libs.offset_text(k.I, want)
        else:
            ps.append(z)
            s = -1 if z[0] == "-" else 1
            want = s * (int(z[1:3]) * 60 + int(z[4:6]))
        u = k.call(f(k), mk_str(ps))
        at = k.last
        k.ok(u is not None, "a valid timestamp is refused", at)
        k.same(fields(k, u), tuple(F[x] for x in "YmdHMS"), "fields of the timestamp read", at)
        k.same(libs.dt_part(u, "microsecond"), us, "fraction of the timestamp read", at)
        k.same(offset(k, u), want, "UTC offset of the timestamp read", at)
    for frac in (0, 1, 2, 3, 4, 5, 6, 7, 9, 12):
        for z in ["Z", "", "+sym", "-sym", "+00:00", "-00:00", "+00:30", "-00:30", "-09:30", "+14:00", "-12:00", "+05:45"]:
            k.scenario("form/%d/%s" % (frac, z or "none"), lambda k, frac=frac, z=z: form(k, frac, z))

    # anything else ----------------------------------------------------------
    def invalid(k, txt):
        r, u = k.raises(lambda: k.call(f(k), txt))
        k.ok(not r, "text that is no timestamp raises an error instead of being reported", k.last)
        k.isnone(u, "text that is no timestamp")
    for txt in ("", "x", "2011", "2011-10-21", "21.10.2011 09:00", "2011-10-21 09:00:00", "2011-10-21T09:00Z", "09:00:00Z",
                "2011-10-21T09:00:00.", "2011-13-21T09:00:00Z", "2011-10-32T09:00:00Z", "2011-10-21T25:00:00Z",
                "2011-10-21T09:61:00Z", "2011-10-21T09:00:00+1", "2011-10-21T09:00:00+01:xx", "2011-10-21T09:00:00+:",
                "2011-10-21T09:00:00-1:", "2011-10-21T09:00:00.000-", "-", "+", "Z", "T", ":", "2011-10-21T09:00:00.123abc",
                "2011-10-21T09:00:00+01:00:00", "yesterday", "1319180400000", "2011-10-21T09:00:00-x:00",
                "Z2011-10-21T09:00:00", "2011-10-21TZ09:00:00", "2011-Z10-21T09:00:00", "2011-10-21T09:00:00ZZ", "2011-10-21T09:00:00Z+01:00",
                "2011-10-21T09:00:00.Z123", "2011-10-21T09:00:00.123Z4567", "2011-10-21T09:00:00.1234567x", "2011-10-21T09:00:00.1234567.8",
                "2011-10-21T09:00:00.123456-7", "2011-10-21T09:00:00.123.456", "2011-10-21T09:00.1234567", ".1234567", "2011-10-21T09:00:00,123",
                "2011-10-21T09:00:00+25:00", "2011-10-21T09:00:00-24:00"):
        k.scenario("invalid/" + txt, lambda k, txt=txt: invalid(k, txt))

    # milliseconds -----------------------------------------------------------
    def millis(k, how):
        n = k.int("n", lo=0)
        if how == "made":
            a = k.attr("timestamp", k.key("key"), n)
        else:
            a = k.attr("timestamp", k.key("key"), k.dt("t"))
            k.m(a, "set_value_millis", n)
        k.same(k.m(a, "get_value_millis"), n, "milliseconds read back")
    for how in ("made", "set"):
        k.scenario("millis/" + how, lambda k, how=how: millis(k, how))

    def again(k, z):
        t = k.dt("t", tz=zone(k, z))
        a = k.attr("timestamp", k.key("key"), t)
        n = k.m(a, "get_value_millis")
        b = k.attr("timestamp", k.key("other"), t)
        k.same(k.m(b, "get_value_millis"), n, "milliseconds of two attributes with the same value")
        want = k.I.call(k.I.builtin["round"], [k.I.binop(__import__("ast").Mult(), k.I.call(k.I.getattr(t, "timestamp"), []), 1000)])
        k.same(n, want, "milliseconds of a timestamp since the epoch")
        k.same(k.m(a, "get_value"), t, "value after reading the milliseconds")
    for z in ("naive", "+sym", "utc"):
        k.scenario("millis/of/" + z, lambda k, z=z: again(k, z))


    # dates at the edges of the calendar and of the day, and many of them one after the other
    EDGES = ("1000-01-01T00:00:00.000", "1582-10-10T12:00:00.001", "1899-12-31T23:59:59.999", "1900-02-28T23:59:59.999", "1900-03-01T00:00:00.000",
             "1901-12-13T20:45:51.000", "1969-12-31T23:59:59.999", "1970-01-01T00:00:00.000", "1970-01-01T00:00:00.001", "1999-12-31T23:59:59.999",
             "2000-02-29T12:00:00.500", "2004-02-29T00:00:00.000", "2019-03-31T02:30:00.000", "2024-02-29T23:59:59.999", "2038-01-19T03:14:08.000",
             "2100-02-28T23:59:59.000", "2106-02-07T06:28:16.000", "9999-12-31T10:00:00.999", "2020-10-10T10:10:10.010", "2020-10-10T10:10:10.100")

    def edge(k, texts, z, rounds=1):
        off = {"Z": 0, "": 0, "+05:45": 345, "-09:30": -570}[z]
        for _ in range(rounds):
            for t in texts:
                u = k.call(f(k), t + z)
                at = k.last
                k.ok(u is not None, "a valid timestamp is refused: %s" % (t + z), at)
                k.same(fields(k, u), tuple(int(x) for x in (t[:4], t[5:7], t[8:10], t[11:13], t[14:16], t[17:19])), "fields of %s" % (t + z), at)
                k.same(k.I.norm(libs.dt_part(u, "microsecond")), int(t[20:]) * 1000, "fraction of %s" % (t + z), at)
                k.same(offset(k, u), off, "UTC offset of %s" % (t + z), at)
                judge(k, u, k.call(f(k), k.str(k.attr("timestamp", "k", u))))
    for z in ("Z", "", "+05:45", "-09:30"):
        for t in EDGES:
            k.scenario("edge/%s%s" % (t, z), lambda k, t=t, z=z: edge(k, [t], z))
    k.scenario("edge/all", lambda k: edge(k, EDGES, "+05:45", 3))

    def many(k, n):
        a = k.attr("timestamp", "k", k.call(f(k), "2020-01-01T00:00:00.000Z"))
        for i in range(n):
            z = ("Z", "+01:00", "-02:30", "+14:00")[i % 4]
            t = "%04d-%02d-%02dT%02d:%02d:%02d.%03d" % (1990 + i % 50, i % 12 + 1, i % 28 + 1, i % 24, i % 60, (7 * i) % 60, (37 * i) % 1000)
            u = k.call(f(k), t + z)
            k.ok(u is not None, "a valid timestamp is refused: %s" % (t + z), k.last)
            k.m(a, "set_value", u)
            s = k.I.norm(k.str(a))
            k.ok(s in ((t + "Z", t + "+00:00") if z == "Z" else (t + z,)), "text of the timestamp %s: %s" % (t + z, s), k.last)
            judge(k, u, k.call(f(k), s))
    for n in (33, 100):
        k.scenario("many/%d" % n, lambda k, n=n: many(k, n))


MIN_SCENARIOS = 100
