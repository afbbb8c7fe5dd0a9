"""Containers of the model, by abstract interpretation of sequences of changes against a reference list."""
from .common import ALL, BIG, DEPTHS, LENGTHS, SIZES, std_keys
METHOD = ("Abstract interpretation of sequences of insertions, replacements and removals on logs, traces, attribute collections, "
          "attribute maps and the lists of a log (classifiers, globals, extensions, features, cached summary), with elements "
          "that are equal, the same one twice, empty or of a kind of the client's own. After every step everything the "
          "container reports is compared, object by object, with a reference list.")
RULE = "contents, order, length, membership, position and iteration of the container == those of the list of what was put in and not removed"
ASSUMES = ["elements are put in and taken out through the public list, map and collection operations"]


def run(k):
    def members(k, o):
        return k.items(o)

    def check(k, o, ref, what):
        at = k.last
        got = members(k, o)
        k.same(len(got), len(ref), "%s: number of elements iterated over" % what, at)
        for i, (a, b) in enumerate(zip(got, ref)):
            k.ok(a is b, "%s: element %d is not the one put there" % (what, i), at)
            k.ok(k.index(o, i) is b, "%s: element at index %d" % (what, i), at)
            k.ok(k.index(o, i - len(ref)) is b, "%s: element at index %d" % (what, i - len(ref)), at)
        k.same(k.len(o), len(ref), "%s: length" % what, at)
        for b in ref:
            k.ok(k.truth(k.has(o, b)), "%s: an element put in is not found in it" % what, at)
        k.same(k.truth(o), bool(ref), "%s: an empty one is false" % what, at)

    def made(k, what):
        if what == "log":
            return k.log(attrs=[k.attr("literal", "concept:name", "g")])
        if what == "created-log":
            return k.m(k.new("XFactory"), "create_log")
        if what == "trace":
            return k.trace(attrs=[k.attr("literal", "concept:name", "t")])
        return k.m(k.new("XFactory"), "create_trace")

    def element(k, what, i, form, u=None):
        if what.endswith("log"):
            if form == "empty":
                return k.trace()
            return k.trace([k.event(k.attr("literal", "concept:name", "e%d" % (i if form == "distinct" else 0)))])
        ident = k.new("XID", u) if form == "equal" else None
        if form == "empty":
            return k.event()
        e = k.event(k.attr("literal", "concept:name", "e%d" % (i if form == "distinct" else 0)))
        if ident is not None:
            k.m(e, "set_id", ident)
        return e

    def sequence(k, what, form):
        o = made(k, what)
        check(k, o, [], "new")
        u = k.uuid("u")
        xs = [element(k, what, i, form, u) for i in range(5)]
        if form == "same":
            xs = [xs[0]] * 5
        ref = []
        for x in xs[:3]:
            k.append(o, x)
            ref.append(x)
            check(k, o, ref, "after append")
        k.m(o, "insert", 1, xs[3])
        ref.insert(1, xs[3])
        check(k, o, ref, "after insert")
        k.m(o, "insert", 0, xs[4])
        ref.insert(0, xs[4])
        check(k, o, ref, "after insert at the front")
        k.setindex(o, 2, xs[0])
        ref[2] = xs[0]
        check(k, o, ref, "after replacement")
        last = k.m(o, "pop")
        k.ok(last is ref.pop(), "pop gives the last element")
        check(k, o, ref, "after pop")
        k.ok(k.m(o, "pop", 0) is ref.pop(0), "pop(0) gives the first element")
        check(k, o, ref, "after pop(0)")
        more = [element(k, what, 7, form, u), element(k, what, 8, form, u)]
        k.m(o, "extend", k.lst(*more))
        ref += more
        check(k, o, ref, "after extend")
        k.m(o, "reverse")
        ref.reverse()
        check(k, o, ref, "after reverse")
        for i in range(3):
            k.append(o, xs[1])
            ref.append(xs[1])
        check(k, o, ref, "after append of one element several times")
        k.m(o, "clear")
        check(k, o, [], "after clear")
        k.append(o, xs[2])
        check(k, o, [xs[2]], "after append to an emptied one")
        k.ok(k.m(o, "get_attributes") is k.m(o, "get_attributes"), "attributes of the container")
    for what in ("log", "created-log", "trace", "created-trace"):
        for form in ("distinct", "equal", "same", "empty"):
            k.scenario("sequence/%s/%s" % (what, form), lambda k, a=(what, form): sequence(k, *a))

    def constructed(k, cls, n):
        """Attributes of an element stay its attributes whatever it contains, and the other way round."""
        m = k.amap(k.attr("literal", "a", "1"), k.attr("discrete", "b", 2))
        o = k.new(cls, m)
        xs = [k.event() if cls == "XTrace" else k.trace() for _ in range(n)]
        for x in xs:
            k.append(o, x)
        k.ok(k.m(o, "get_attributes") is m, "the attribute map given to the constructor")
        k.same([e[0] for e in m.payload], ["a", "b"], "keys of the attributes")
        check(k, o, xs, "constructed")
        m2 = k.amap(k.attr("literal", "c", "3"))
        k.m(o, "set_attributes", m2)
        k.ok(k.m(o, "get_attributes") is m2, "the attribute map set")
        k.same(k.m(o, "has_attributes"), True, "has attributes")
        check(k, o, xs, "after the attributes were replaced")
        k.m(o, "clear")
        k.ok(k.m(o, "get_attributes") is m2, "the attribute map after the elements were removed")
        k.same(len(m2.payload), 1, "attributes after the elements were removed")
    for cls in ("XLog", "XTrace"):
        for n in (0, 1, 3):
            k.scenario("constructed/%s/%d" % (cls, n), lambda k, a=(cls, n): constructed(k, *a))

    # ---- attributes of elements
    OWNERS = {"event": lambda k: k.event(), "trace": lambda k: k.trace(), "log": lambda k: k.log(),
              "element": lambda k: k.new("XElement", k.new("XAttributeMap")), "attributable": lambda k: k.new("XAttributable"),
              "literal": lambda k: k.attr("literal", "own"), "list": lambda k: k.attr("list", "own"), "container": lambda k: k.attr("container", "own"),
              "identified": lambda k: k.new("XEvent", None, k.xid("given")), "created": lambda k: k.m(k.new("XFactory"), "create_event")}

    def attributes(k, what, kd):
        o = OWNERS[what](k)
        k.same(k.m(o, "has_attributes"), False, "a new element has attributes")
        mp = k.m(o, "get_attributes")
        k.same(k.m(mp, "is_empty"), True, "the attribute map of a new element is empty")
        k1, k2 = k.key("k1"), k.key("k2")
        a, b, c = k.attr(kd, k1, name="a"), k.attr("literal", k2, name="b"), k.attr(kd, k1, name="c")
        ref = []

        def put(key, v):
            k.setindex(mp, key, v)
            for e in ref:
                if e[0] is key:
                    e[1] = v
                    return
            ref.append([key, v])

        def look(what2):
            at = k.last
            k.ok(k.m(o, "get_attributes") is mp, "%s: the attribute map is another one" % what2, at)
            got = [(e[0], e[1]) for e in mp.payload]
            k.same([g[0] for g in got], [e[0] for e in ref], "%s: keys" % what2, at)
            for (x, v), e in zip(got, ref):
                k.ok(v is e[1], "%s: the attribute of a key is not the one given" % what2, at)
                k.ok(k.index(mp, e[0]) is e[1], "%s: attribute looked up by key" % what2, at)
                k.ok(k.m(mp, "get", e[0]) is e[1], "%s: attribute got by key" % what2, at)
                k.ok(k.truth(k.has(mp, e[0])), "%s: a key is not found" % what2, at)
            k.same(k.len(mp), len(ref), "%s: number of attributes" % what2, at)
            k.same(k.m(o, "has_attributes"), bool(ref), "%s: has attributes" % what2, at)
            k.same(k.m(mp, "is_empty"), not ref, "%s: is empty" % what2, at)
            k.ok(k.m(mp, "get", k.key("absent")) is None, "%s: an attribute of a key nobody gave" % what2, at)
        put(k1, a)
        look("one attribute")
        put(k2, b)
        look("two attributes")
        put(k1, c)
        look("one replaced")
        k.ok(k.m(mp, "pop", k1) is c, "the attribute removed is not the one of its key")
        del ref[0]
        look("one removed")
        put(k1, a)
        look("put in again")
        k.m(mp, "clear")
        ref.clear()
        look("cleared")
        new = k.amap(k.attr("literal", k2, name="d"))
        k.m(o, "set_attributes", new)
        mp, ref = new, [[e[0], e[1]] for e in new.payload]
        look("map replaced")
        mp, ref = k.amap(), []
        k.m(o, "set_attributes", mp)
        look("map replaced by an empty one")
        put(k2, b)
        look("one attribute in the map that was empty")
    for what in OWNERS:
        for kd in ALL if what == "event" else ("literal", "list"):
            k.scenario("attributes/%s/%s" % (what, kd), lambda k, a=(what, kd): attributes(k, *a))

    def from_map(k, n, how):
        """A map made of a dictionary holds what the dictionary holds, and is another one."""
        src = k.amap(*[k.attr("literal", "k%d" % i, name="v%d" % i) for i in range(n)])
        if "odd" in how:        # held under a name of the client's
            src = k.I.call(k.client("def make(m, a): return a({'name of ' + x: y for x, y in m.items()})")["make"],
                           [src, k.cls("XAttributeMap")])
        if "dict" in how:
            src = k.I.call(k.client("def make(m): return dict(m)")["make"], [src])
        mp = k.m(src, "clone") if "clone" in how else k.new("XAttributeMap", src)
        k.ok(mp is not src, "the map given and the one made are one object")
        k.same([e[0] for e in mp.payload], [("name of " if "odd" in how else "") + "k%d" % i for i in range(n)], "keys of the map made", k.last)
        for a, b in zip(mp.payload, src.payload):
            k.same(k.view(a[1]), k.view(b[1]), "attribute of the map made", k.last)
        k.setindex(mp, "more", k.attr("literal", "more"))
        k.same(len(src.payload), n, "size of the map given, after the one made was extended", k.last)
    for n in (0, 1, 3):
        for how in ("new", "clone", "dict", "odd-new", "odd-clone", "odd-dict"):
            k.scenario("map/%s/%d" % (how, n), lambda k, a=(n, how): from_map(k, *a))

    # ---- lists and containers
    def collection(k, kd, form, made_by):
        o = k.attr(kd, "own") if made_by == "class" else k.m(k.new("XFactory"), "create_attribute_" + kd, "own")
        ref = []

        def look(what):
            at = k.last
            got = k.items(k.m(o, "get_collection"))
            k.same(len(got), len(ref), "%s: number of members" % what, at)
            for a, b in zip(got, ref):
                k.ok(a is b, "%s: a member is not the one added, in order" % what, at)
            k.same(k.m(o, "has_attributes"), False, "%s: members are attributes of the collection" % what, at)
        look("new")
        kinds = ("literal", "discrete", "list", "boolean-true", "literal")
        for i, m in enumerate(kinds):
            key = {"distinct": "k%d" % i, "one-key": "k", "equal": "k", "same": "k"}[form]
            a = ref[0] if form == "same" and ref else k.attr("literal" if form == "equal" else m, key, **({"value": "v"} if form == "equal" else {}))
            k.m(o, "add_to_collection", a)
            ref.append(a)
            look("after %d additions" % (i + 1))
        # what get_collection gave can be changed without changing the attribute
        got = k.m(o, "get_collection")
        if k.opt(got, "append") is not None:
            k.append(got, k.attr("literal", "later"))
            look("after the list returned was changed")
        want = "["
        for i, a in enumerate(ref):
            want = k.plus(k.plus(k.plus(k.plus(want, "," if i else ""), k.get(a, "get_key")), ":"), k.str(a))
        k.same(k.str(o), k.plus(want, "]"), "text of the collection", k.last)
    for kd in ("list", "container"):
        for form in ("distinct", "one-key", "equal", "same"):
            for by in ("class", "factory"):
                k.scenario("collection/%s/%s/%s" % (kd, form, by), lambda k, a=(kd, form, by): collection(k, *a))
        k.scenario("collection/%s/empty-text" % kd, lambda k, kd=kd: k.same(k.str(k.attr(kd, "own")), "[]", "text of an empty collection"))

    # ---- values
    def value(k, kd):
        k1 = k.key("k")
        a, b = k.attr(kd, k1, name="v1"), k.attr(kd, k.key("k2"), name="w1")
        before = k.value_of(b)
        for n in range(2):
            v = k.value({"boolean-true": "boolean-false"}.get(kd, kd) if n else kd, "set%d" % n)
            k.m(a, "set_value", v)
            k.same(k.get(a, "get_value"), v, "value set", k.last)
            k.same(k.get(a, "get_key"), k1, "key after the value was set", k.last)
            k.same(k.value_of(b), before, "value of another attribute", k.last)
    for kd in ALL[:7]:
        k.scenario("value/%s" % kd, lambda k, kd=kd: value(k, kd))

    # ---- what a log declares
    def declared(k, by):
        g = k.log() if by == "class" else k.m(k.new("XFactory"), "create_log")
        h = k.log()
        for get, mk in (("get_classifiers", lambda i: k.new("XEventAttributeClassifier", "c", k.lst("a%d" % (i // 2)))),
                        ("get_global_trace_attributes", lambda i: k.attr("literal", "k", "v%d" % (i // 2))),
                        ("get_global_event_attributes", lambda i: k.attr("discrete", "k", i // 2))):
            ref = []
            check(k, k.m(g, get), ref, "new " + get)
            for i in range(4):
                x = mk(i)
                k.append(k.m(g, get), x)
                ref.append(x)
                check(k, k.m(g, get), ref, get)
            k.m(k.m(g, get), "remove", ref[2])
            del ref[next(i for i, r in enumerate(ref) if k.truth(k.eq(r, ref[2])))]
            check(k, k.m(g, get), ref, get + " after a removal")
            check(k, k.m(h, get), [], get + " of another log")
        exts = [k.new("XConceptExtension"), k.new("XTimeExtension"), k.new("XConceptExtension")]
        for e in exts:
            k.m(k.m(g, "get_extensions"), "add", e)
        k.same(k.len(k.m(g, "get_extensions")), 2, "number of extensions declared")
        for e in exts:
            k.ok(k.truth(k.has(k.m(g, "get_extensions"), e)), "an extension declared is missing")
        k.m(g, "set_features", "f", "1")
        k.m(g, "set_features", "g", "2")
        k.m(g, "set_features", "f", "3")
        k.same(sorted(tuple(e.payload) for e in k.items(k.m(k.m(g, "get_features"), "items"))), [("f", "3"), ("g", "2")], "features")
        k.same(k.len(k.m(h, "get_features")), 0, "features of another log")
    for by in ("class", "factory"):
        k.scenario("declared/%s" % by, lambda k, by=by: declared(k, by))

    def cached(k, c1, c2):
        """The summary kept with a log is given for the classifier it was kept for, and no other."""
        mk = {"name": lambda: k.new("XEventNameClassifier"), "resource": lambda: k.new("XEventResourceClassifier"),
              "own": lambda: k.new("XEventAttributeClassifier", "own", k.lst("a", "b")),
              "own-keys": lambda: k.new("XEventAttributeClassifier", "own", k.lst("a", "c")),
              "and": lambda: k.new("XEventAndClassifier", k.lst(k.new("XEventNameClassifier"), k.new("XEventResourceClassifier")))}
        g = k.log([k.trace([k.event()])])
        a, b = mk[c1](), mk[c2]()
        for c in (a, b):
            k.isnone(k.m(g, "get_info", c), "summary of a new log")
        ns = k.client("class I:\n    pass\na = I()\nb = I()\n")
        i1, i2 = ns["a"], ns["b"]
        k.m(g, "set_info", a, i1)
        k.ok(k.m(g, "get_info", a) is i1, "the summary kept is not given for its classifier")
        k.ok(k.m(g, "get_info", mk[c1]()) is i1, "the summary kept is not given for an equal classifier")
        if c1 != c2:
            k.isnone(k.m(g, "get_info", b), "summary for another classifier")
        k.m(g, "set_info", b, i2)
        k.ok(k.m(g, "get_info", b) is i2, "the summary kept last is not given for its classifier")
        if c1 != c2:
            k.isnone(k.m(g, "get_info", a), "summary for the classifier of the one before")
        k.isnone(k.m(k.log(), "get_info", b), "summary of another log")
    CL = ("name", "resource", "own", "own-keys", "and")
    for c1 in CL:
        for c2 in CL:
            k.scenario("cached/%s-%s" % (c1, c2), lambda k, a=(c1, c2): cached(k, *a))


    # ---- many elements, attributes, members; deep ones; long texts
    def crowd(k, what, n, cut):
        o = made(k, what)
        xs = [element(k, what, i, "empty") for i in range(n)]
        ref = []
        for x in xs[:n - 3]:
            k.append(o, x)
            ref.append(x)

        def look(what2):
            at = k.last
            got = members(k, o)
            k.same(len(got), len(ref), "%s: number of elements iterated over" % what2, at)
            for i, (a, b) in enumerate(zip(got, ref)):
                k.ok(a is b, "%s: element %d is not the one put there" % (what2, i), at)
            k.same(k.len(o), len(ref), "%s: length" % what2, at)
            for i in sorted({0, 1, len(ref) // 2, len(ref) - 1}):
                k.ok(k.index(o, i) is ref[i], "%s: element at index %d" % (what2, i), at)
        look("after many additions")
        k.m(o, "insert", n // 2, xs[n - 3])
        ref.insert(n // 2, xs[n - 3])
        look("after an insertion among many")
        k.m(o, "extend", k.lst(*xs[n - 2:]))
        ref += xs[n - 2:]
        look("after extend")
        for _ in range(cut):
            k.ok(k.m(o, "pop") is ref.pop(), "pop gives the last element of many")
            k.ok(k.m(o, "pop", 0) is ref.pop(0), "pop(0) gives the first element of many")
        look("after removals")
        k.m(o, "reverse")
        ref.reverse()
        look("after reverse")
    for what in ("log", "created-log", "trace", "created-trace"):
        for n in SIZES + (BIG if what in ("log", "trace") else ()):
            k.scenario("many/%s/%d" % (what, n), lambda k, a=(what, n, 3): crowd(k, *a))

    def many_attributes(k, what, n, keys=None):
        o = OWNERS[what](k)
        mp, ref = k.m(o, "get_attributes"), []
        keys = keys or ["k%d" % i for i in range(n)]
        for i in range(n):
            a = k.attr("literal", keys[i], "v%d" % i)
            k.put(o, a)
            ref.append((keys[i], a))

        def look(what2):
            at = k.last
            k.ok(k.m(o, "get_attributes") is mp, "%s: the attribute map is another one" % what2, at)
            got = [(e[0], e[1]) for e in mp.payload]
            k.same([g[0] for g in got], [r[0] for r in ref], "%s: keys" % what2, at)
            for (x, v), (key, a) in zip(got, ref):
                k.ok(v is a, "%s: the attribute of a key is not the one given" % what2, at)
            for key, a in ref:
                k.ok(k.m(mp, "get", key) is a, "%s: attribute got by key" % what2, at)
            k.same(k.len(mp), len(ref), "%s: number of attributes" % what2, at)
            k.same((k.m(o, "has_attributes"), k.m(mp, "is_empty")), (bool(ref), not ref), "%s: has attributes" % what2, at)
        look("many attributes")
        for i in (n // 2, 0):
            a = k.attr("literal", keys[i], "other")
            k.put(o, a)
            ref[i] = (keys[i], a)
        look("after some were replaced")
        k.m(mp, "pop", keys[1])
        del ref[1]
        look("after one was removed")
        c = k.m(mp, "clone") if k.opt(mp, "clone") is not None else None
        if c is not None:
            k.same([e[0] for e in c.payload], [r[0] for r in ref], "keys of the clone of a map of many", k.last)
            for e, (key, a) in zip(c.payload, ref):
                k.same(k.view(e[1]), k.view(a), "attribute of the clone of a map of many", k.last)
    names = [x for x, _ in std_keys()]
    for what in OWNERS:
        k.scenario("keys/%s" % what, lambda k, w=what: many_attributes(k, w, len(names), names))
        k.scenario("keys/reversed/%s" % what, lambda k, w=what: many_attributes(k, w, len(names), names[::-1]))
        for n in SIZES if what != "event" else SIZES + BIG[:1]:
            k.scenario("many-attributes/%s/%d" % (what, n), lambda k, a=(what, n): many_attributes(k, *a))

    def many_members(k, kd, n):
        o, ref = k.attr(kd, "own"), []
        for i in range(n):
            ref.append(k.attr("literal", "k%d" % (i % 10), "v%d" % i))
            k.m(o, "add_to_collection", ref[-1])
        got = k.items(k.m(o, "get_collection"))
        at = k.last
        k.same(len(got), n, "number of members", at)
        for a, b in zip(got, ref):
            k.ok(a is b, "a member is not the one added, in order", at)
        k.same(k.str(o), "[%s]" % ",".join("k%d:v%d" % (i % 10, i) for i in range(n)), "text of a collection of many", k.last)
    for kd in ("list", "container"):
        for n in SIZES + BIG[:1]:
            k.scenario("many-members/%s/%d" % (kd, n), lambda k, a=(kd, n): many_members(k, *a))

    def levels(k, n):
        top = a = k.attr("literal", "k", "v")
        chain = [a]
        for i in range(n):
            b = k.attr("literal", "k", "v")
            k.put(a, b)
            chain.append(b)
            a = b
        cur = top
        for b in chain[1:]:
            k.ok(k.attr_of(cur, "k") is b, "an attribute nested %d levels deep is not the one put there" % n, k.last)
            k.same(k.len(k.m(cur, "get_attributes")), 1, "number of nested attributes", k.last)
            cur = b
        k.same(k.m(cur, "has_attributes"), False, "the innermost attribute has attributes", k.last)
    for n in DEPTHS:
        k.scenario("deep/%d" % n, lambda k, n=n: levels(k, n))

    def long(k, n):
        for v in ("x" * n, "a b" * (n // 3), "y" * (n - 1) + "."):
            a = k.attr("literal", v, v)
            k.same((k.get(a, "get_key"), k.get(a, "get_value"), k.str(a)), (v, v, v), "key, value and text of an attribute", k.last)
            b = k.attr("literal", "k", "short")
            k.m(b, "set_value", v)
            k.same((k.get(b, "get_value"), k.str(b)), (v, v), "value set", k.last)
            g = k.log()
            k.m(g, "set_features", v, v)
            k.same([tuple(e.payload) for e in k.items(k.m(k.m(g, "get_features"), "items"))], [(v, v)], "features", k.last)
        for v in (10 ** (n - 1) + 7,) if n < 300 else ():
            a = k.attr("discrete", "k", v)
            k.same((k.get(a, "get_value"), k.str(a)), (v, str(v)), "value and text of a discrete attribute", k.last)
    for n in LENGTHS:
        k.scenario("long/%d" % n, lambda k, n=n: long(k, n))

    def many_declared(k, n):
        g = k.log()
        for get, mk in (("get_classifiers", lambda i: k.new("XEventAttributeClassifier", "c%d" % i, k.lst("a%d" % i))),
                        ("get_global_trace_attributes", lambda i: k.attr("literal", "k%d" % i, "v")),
                        ("get_global_event_attributes", lambda i: k.attr("discrete", "k%d" % i, i))):
            ref = [mk(i) for i in range(n)]
            for x in ref:
                k.append(k.m(g, get), x)
            got = k.items(k.m(g, get))
            k.same(len(got), n, "number given by " + get, k.last)
            for a, b in zip(got, ref):
                k.ok(a is b, "%s: an element is not the one put there" % get, k.last)
        xs = [k.new("XExtension", "n%d" % i, "p%d" % i, "urn:%d" % i) for i in range(n)]
        for e in xs:
            k.m(k.m(g, "get_extensions"), "add", e)
        k.same(k.len(k.m(g, "get_extensions")), n, "number of extensions declared")
        for e in xs:
            k.ok(k.truth(k.has(k.m(g, "get_extensions"), e)), "an extension declared is missing")
        for i in range(n):
            k.m(g, "set_features", "f%d" % i, "v%d" % i)
        k.same(sorted(tuple(e.payload) for e in k.items(k.m(k.m(g, "get_features"), "items"))), sorted(("f%d" % i, "v%d" % i) for i in range(n)),
               "features", k.last)
    for n in SIZES:
        k.scenario("many-declared/%d" % n, lambda k, n=n: many_declared(k, n))


MIN_SCENARIOS = 90
