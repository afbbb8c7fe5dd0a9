"""Nested cost values, by abstract interpretation of the plural assign / extract operations of the cost extension."""
from .common import TEXTS, WORDS, keyed

METHOD = ("Abstract interpretation of assign_amounts/drivers/types, their nested forms and the matching extractors over "
          "symbolic keys and values, for several shapes of the key tree; every map extracted is compared entry by entry with "
          "the map the attribute tree defines.")
RULE = "extract_nested(assign_nested(m)) == m; extract = entries of depth one; nothing else on the element changes"

PLURAL = {"amount": ("amounts", "cost:amount", "XAttributeContinuous"), "driver": ("drivers", "cost:driver", "XAttributeLiteral"),
          "type": ("types", "cost:type", "XAttributeLiteral")}
SHAPES = {"flat": [(0,), (1,)], "one": [(0,)], "none": [], "two-deep": [(0,), (0, 1), (0, 2), (3,)],
          "only-deep": [(0, 1)], "three-deep": [(0,), (0, 1), (0, 1, 2)], "repeated-key": [(0,), (0, 1), (1,), (1, 0)],
          "same-key-below": [(0, 0), (0,)], "deep-first": [(0, 1, 2), (0, 1), (3, 1), (0,)]}


def run(k):
    def val(k, m, n):
        if m != "amount":
            return k.phrase(n)
        x = k.float(n)
        if not k.truth(k.cmp(">", x, 0)):
            from ..interp import Infeasible
            raise Infeasible()
        return x

    def own(k, what):
        a = k.attr("literal", k.key("plain"), name="plain.v")
        return k.trace((), [a]) if what == "trace" else k.event(a)

    def dic(k, items):
        return k.I.mkdict(items)

    def entries(k, d):
        return [(e[0], e[1]) for e in d.payload]

    def path(k, p):
        from ..interp import Obj
        return tuple(k.items(p))

    def judge(k, got, want, what, at, nested=True):
        es = entries(k, got)
        k.same(len(es), len(want), "number of entries: " + what, at)
        for key, v in want:
            hit = [x for p, x in es if (path(k, p) if nested else p) == key]
            k.ok(len(hit) == 1, "no entry for %s: %s" % ("/".join(str(y) for y in key) if nested else key, what), at)
            k.same(hit[0], v, "value of an entry: " + what, at)

    def names(k, shape):
        ids = sorted({i for p in shape for i in p})
        return {i: k.key("k%d" % i) for i in ids}

    def nested(k, m, shape, what, aslist):
        x = k.new("XCostExtension")
        pl, key, kd = PLURAL[m]
        nm = names(k, shape)
        want = [(tuple(nm[i] for i in p), val(k, m, "v%d" % n)) for n, p in enumerate(shape)]
        o, other = own(k, what), own(k, what)
        before = k.views(o)
        b2 = k.views(other)
        k.m(x, "assign_nested_" + pl, o, dic(k, [(k.I.mktuple(list(p)), v) for p, v in want]))
        at = k.last
        judge(k, k.m(x, "extract_nested_" + pl, o), want, "nested %s extracted after assigning them" % pl, at)
        judge(k, k.m(x, "extract_nested_" + pl, o), want, "nested %s extracted again" % pl, at)
        judge(k, k.m(x, "extract_" + pl, o), [(p[0], v) for p, v in want if len(p) == 1], "%s of the children" % pl, at, False)
        tree(k, o, want, key, kd, at)
        k.same(tuple(y for y in k.views(o) if y[0] not in [p[0] for p, _ in want]), before,
               "the other attributes after assigning nested %s" % pl, at)
        k.same(k.views(other), b2, "another element after assigning nested %s" % pl, at)
        judge(k, k.m(x, "extract_nested_" + pl, other), [], "nested %s of another element" % pl, at)
        for q in PLURAL:
            if q != m:
                judge(k, k.m(x, "extract_nested_" + PLURAL[q][0], o), [],
                      "nested %s when only %s were assigned" % (PLURAL[q][0], pl), at)

    def tree(k, o, want, key, kd, at):
        for p, v in want:
            a = o
            for y in p:
                a = k.attr_of(a, y)
                k.ok(a is not None, "the attribute with the prescribed key is missing", at)
                k.same(k.get(a, "get_key"), y, "key of the attribute on the path", at)
            b = k.attr_of(a, key)
            k.ok(b is not None, "the attribute does not carry its %s" % key, at)
            k.same((k.kind_of(b), k.get(b, "get_value"), k.get(b, "get_extension")), (kd, v, k.new("XCostExtension")),
                   "the %s of the attribute" % key, at)
        # nothing but the prescribed attributes was made
        def count(a):
            return sum(1 + count(c) for _, c in k.attrs(a))
        nodes = {p[:i] for p, _ in want for i in range(1, len(p) + 1)}
        k.same(count(o), 1 + len(nodes) + len(want), "number of attributes made", at)
    for m in PLURAL:
        for n, shape in SHAPES.items():
            k.scenario("nested/%s/%s" % (m, n), lambda k, m=m, s=shape: nested(k, m, s, "trace", False))
        k.scenario("nested/%s/event" % m, lambda k, m=m: nested(k, m, SHAPES["two-deep"], "event", False))

    def flat(k, m, n, what):
        x = k.new("XCostExtension")
        pl, key, kd = PLURAL[m]
        ks = [k.key("k%d" % i) for i in range(n)]
        want = [(ks[i], val(k, m, "v%d" % i)) for i in range(n)]
        o = own(k, what)
        before = k.views(o)
        k.m(x, "assign_" + pl, o, dic(k, want))
        at = k.last
        judge(k, k.m(x, "extract_" + pl, o), want, "%s extracted after assigning them" % pl, at, False)
        judge(k, k.m(x, "extract_nested_" + pl, o), [((p,), v) for p, v in want], "nested %s" % pl, at)
        tree(k, o, [((p,), v) for p, v in want], key, kd, at)
        k.same(tuple(y for y in k.views(o) if y[0] not in ks), before, "the other attributes after assigning %s" % pl, at)
        if n:
            w = val(k, m, "w")
            k.m(x, "assign_" + pl, o, dic(k, [(ks[0], w)]))
            judge(k, k.m(x, "extract_" + pl, o), [(ks[0], w)] + want[1:], "%s assigned a second time" % pl, at, False)
    for m in PLURAL:
        for n in (0, 1, 2, 3):
            k.scenario("flat/%s/%d" % (m, n), lambda k, m=m, n=n: flat(k, m, n, "event" if n % 2 else "trace"))

    def existing(k, m):
        """attributes that exist are used, whatever their kind, and keep value and other nested attributes"""
        x = k.new("XCostExtension")
        pl, key, kd = PLURAL[m]
        a, b = k.key("a"), k.key("b")
        v, w = val(k, m, "v"), val(k, m, "w")
        A = k.attr("discrete", a, name="av")
        N = k.put(A, k.attr("literal", k.key("n"), name="nv"))
        o = k.event(A)
        av = k.get(A, "get_value")
        k.m(x, "assign_nested_" + pl, o, dic(k, [(k.I.mktuple([a]), v), (k.I.mktuple([a, b]), w)]))
        at = k.last
        k.same(k.attr_of(o, a), A, "an existing attribute was replaced", at)
        k.same(k.get(A, "get_value"), av, "the value of an existing attribute", at)
        k.same(k.attr_of(A, k.get(N, "get_key")), N, "a nested attribute of an existing one was replaced", at)
        judge(k, k.m(x, "extract_nested_" + pl, o), [((a,), v), ((a, b), w)], "nested %s" % pl, at)
    for m in PLURAL:
        k.scenario("existing/%s" % m, lambda k, m=m: existing(k, m))

    # attributes that exist already, of every kind, the extensions' own among them
    def among(k, m, level, rot):
        x = k.new("XCostExtension")
        pl, key, kd = PLURAL[m]
        o = {"trace": k.trace, "event": k.event}[level]()
        old = [a for a in keyed(k, o, rot, skip=("cost:amount", "cost:driver", "cost:type"))]
        snap = {k.get(a, "get_key"): (k.kind_of(a), k.view(a)) for a in old}
        keys = [k.get(a, "get_key") for a in old][rot::3]
        want = []
        for i, a in enumerate(keys):
            want.append(((a,), 1.5 + i if m == "amount" else "v%d" % i))
            if i % 2:
                want.append(((a, keys[i - 1]), 0.5 + i if m == "amount" else "w%d" % i))
        k.m(x, "assign_nested_" + pl, o, dic(k, [(k.I.mktuple(list(p)), v) for p, v in want]))
        at = k.last
        judge(k, k.m(x, "extract_nested_" + pl, o), want, "nested %s of attributes that exist" % pl, at)
        judge(k, k.m(x, "extract_" + pl, o), [(p[0], v) for p, v in want if len(p) == 1], "%s of attributes that exist" % pl, at, False)
        for a in old:
            n = k.get(a, "get_key")
            k.same(k.attr_of(o, n), a, "an attribute that exists was replaced", at)
            if n not in keys:
                k.same((k.kind_of(a), k.view(a)), snap[n], "an attribute nothing was assigned to", at)
    for m in PLURAL:
        for level in ("trace", "event"):
            for rot in (0, 1, 2):
                k.scenario("among/%s/%s/%d" % (m, level, rot), lambda k, m=m, l=level, r=rot: among(k, m, l, r))

    # keys of every form
    def odd(k, m, deep):
        x = k.new("XCostExtension")
        pl, key, kd = PLURAL[m]
        ks = [t for t in TEXTS + WORDS + ("", " ", "\t", " a", "a ", "A")]
        ks = list(dict.fromkeys(ks))
        if deep:
            want = [((ks[i - 1], t), 1.5 + i if m == "amount" else "v%d" % i) for i, t in enumerate(ks)]
        else:
            want = [((t,), 1.5 + i if m == "amount" else "v%d" % i) for i, t in enumerate(ks)]
        o = k.event()
        if deep:
            k.m(x, "assign_nested_" + pl, o, dic(k, [(k.I.mktuple(list(p)), v) for p, v in want]))
        else:
            k.m(x, "assign_" + pl, o, dic(k, [(p[0], v) for p, v in want]))
        at = k.last
        judge(k, k.m(x, "extract_nested_" + pl, o), want, "nested %s under keys of every form" % pl, at)
        if not deep:
            judge(k, k.m(x, "extract_" + pl, o), [(p[0], v) for p, v in want], "%s under keys of every form" % pl, at, False)
    for m in PLURAL:
        for deep in (False, True):
            k.scenario("odd/%s/%s" % (m, "deep" if deep else "flat"), lambda k, m=m, d=deep: odd(k, m, d))

    # values of every form
    def values(k, m):
        x = k.new("XCostExtension")
        pl, key, kd = PLURAL[m]
        vs = [v for v in TEXTS if v.strip()] if m != "amount" else [1, 2, 0.5, 1.0, 1e-9, 1e300, 100, 1000000, 10 ** 15, 0.1, 99.99, 255, 3]
        o = k.trace()
        want = [("k%d" % i, v) for i, v in enumerate(vs)]
        k.m(x, "assign_" + pl, o, dic(k, want))
        judge(k, k.m(x, "extract_" + pl, o), want, "%s of every form" % pl, k.last, False)
        judge(k, k.m(x, "extract_nested_" + pl, o), [((n,), v) for n, v in want], "nested %s of every form" % pl, k.last)
    for m in PLURAL:
        k.scenario("values/%s" % m, lambda k, m=m: values(k, m))

    def zero(k):
        """an amount of zero is an amount"""
        x = k.new("XCostExtension")
        a = k.key("a")
        A = k.attr("literal", a, name="av")
        k.put(A, k.attr("continuous", "cost:amount", 0.0))
        o = k.event(A)
        judge(k, k.m(x, "extract_amounts", o), [(a, 0.0)], "amounts of an attribute carrying amount 0", k.last, False)
        judge(k, k.m(x, "extract_nested_amounts", o), [((a,), 0.0)], "nested amounts with amount 0", k.last)
    k.scenario("zero-amount", zero)

    def together(k):
        x = k.new("XCostExtension")
        a, b = k.key("a"), k.key("b")
        o = own(k, "event")
        ws = {m: (val(k, m, m + "1"), val(k, m, m + "2")) for m in PLURAL}
        for m in PLURAL:
            k.m(x, "assign_nested_" + PLURAL[m][0], o, dic(k, [(k.I.mktuple([a]), ws[m][0]), (k.I.mktuple([a, b]), ws[m][1])]))
        for m in PLURAL:
            judge(k, k.m(x, "extract_nested_" + PLURAL[m][0], o), [((a,), ws[m][0]), ((a, b), ws[m][1])],
                  "nested %s beside the others" % PLURAL[m][0], k.last)
            judge(k, k.m(x, "extract_" + PLURAL[m][0], o), [(a, ws[m][0])], "%s beside the others" % PLURAL[m][0], k.last, False)
    k.scenario("together", together)

    many = {"chain-%d" % n: [tuple(range(i + 1)) for i in range(n)] for n in (4, 5, 6, 9, 17)}
    many.update({"leaf-%d" % n: [tuple(range(n))] for n in (4, 5, 6, 9, 17)})
    many.update({"wide-%d" % n: [(i,) for i in range(n)] for n in (5, 9, 17, 40)})
    many.update({"wide-at-%d-%d" % (d, n): [tuple(range(d)) + (d + i,) for i in range(n)] for d in (1, 2, 3) for n in (3, 9, 17, 40)})
    many.update({"tree-%d" % n: [p for i in range(n) for p in [(i,)] + [(i, n + j) for j in range(n)]] for n in (4, 7)})

    def sized(k, m, shape):
        x = k.new("XCostExtension")
        pl, key, kd = PLURAL[m]
        want = [(tuple("k%d" % i for i in p), 1.5 + n if m == "amount" else "v%d" % n) for n, p in enumerate(shape)]
        o = k.event(k.attr("literal", "plain", "v"))
        k.m(x, "assign_nested_" + pl, o, dic(k, [(k.I.mktuple(list(p)), v) for p, v in want]))
        at = k.last
        judge(k, k.m(x, "extract_nested_" + pl, o), want, "nested %s extracted after assigning them" % pl, at)
        judge(k, k.m(x, "extract_" + pl, o), [(p[0], v) for p, v in want if len(p) == 1], "%s of the children" % pl, at, False)
        if all(p[:-1] in [q for q, _ in want] for p, _ in want if len(p) > 1):
            tree(k, o, want, key, kd, at)
    for m in PLURAL:
        for n, shape in many.items():
            k.scenario("many/%s/%s" % (m, n), lambda k, m=m, s=shape: sized(k, m, s))


MIN_SCENARIOS = 40
