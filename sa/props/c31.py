"""Independence of separately constructed objects, by abstract interpretation of constructors, changes and readers."""
from .common import ALL
METHOD = ("Abstract interpretation of the construction of several objects of each class from symbolic arguments; each is changed "
          "through every public operation that changes it, and the others, and one constructed afterwards, are read back "
          "through every public reader.")
RULE = "no public change of one object shows in another constructed separately, before or after; get_extensions collects the extensions used"

def run(k):
    F = lambda k: k.new("XFactory")

    def mk(what):
        memo = {}

        def once(fn, *a):
            if (fn.__name__,) + a not in memo:
                memo[(fn.__name__,) + a] = fn(*a)
            return memo[(fn.__name__,) + a]

        def f(k, i):
            s = str(i)
            if what == "XEvent":
                return k.new("XEvent")
            if what in ("XTrace", "XLog"):
                return k.new(what, k.new("XAttributeMap"))
            if what == "XElement":
                return k.new("XElement")
            if what == "XAttributable":
                return k.new("XAttributable")
            if what == "XAttributeMap":
                return k.new("XAttributeMap")
            if what.startswith("create_"):
                fac = F(k)
                if what in ("create_attribute_map", "create_log", "create_trace", "create_event"):
                    return k.m(fac, what)
                kd = what[len("create_attribute_"):]
                kd = {"boolean": "boolean-true"}.get(kd, kd)
                if kd in ("list", "container"):
                    return k.m(fac, what, once(k.key, "key" + s))
                return k.m(fac, what, once(k.key, "key" + s), once(k.value, kd, "v" + s))
            if what.startswith("attr-"):
                kd = what[5:]
                if kd in ("list", "container"):
                    return k.attr(kd, once(k.key, "key" + s))
                return k.attr(kd, once(k.key, "key" + s), once(k.value, kd, "v" + s))
            if what == "XExtension":
                return k.new("XExtension", once(k.word, "n" + s), once(k.word, "p" + s), once(k.word, "u" + s))
            if what == "XAttributeNameMap":
                return k.new("XAttributeNameMap", "m" + s)
            if what == "XAttributeInfo":
                return k.new("XAttributeInfo")
            if what == "XTimeBounds":
                return k.new("XTimeBounds")
            if what == "XEventClasses":
                return k.new("XEventClasses", k.new("XEventNameClassifier"))
            if what == "XEventAndClassifier":
                return k.new("XEventAndClassifier", k.lst(k.new("XEventNameClassifier"), k.new("XEventResourceClassifier")))
            if what == "XEventAttributeClassifier":
                return k.new("XEventAttributeClassifier", "n" + s, k.lst(once(k.key, "k" + s)))
            return k.new(what)
        return f

    def change(k, o, i):
        """Every public way to put something into o."""
        if k.opt(o, "get_attributes") is not None and not k.isinst(o, "XAttributeInfo"):
            k.put(o, k.attr("literal", k.key("added.%d" % i), name="av%d" % i))
        if k.isinst(o, "XAttributeMap"):
            k.setindex(o, "added", k.attr("literal", "added", name="av%d" % i))
        if k.isinst(o, "XLog"):
            k.append(o, k.trace())
            k.m(o, "set_features", "f", "v")
            for g in ("get_classifiers", "get_global_event_attributes", "get_global_trace_attributes"):
                k.append(k.m(o, g), "x%d" % i)
            k.m(k.m(o, "get_extensions"), "add", k.new("XConceptExtension"))
        elif k.isinst(o, "XTrace"):
            k.append(o, k.event())
        if k.opt(o, "add_to_collection") is not None:
            k.m(o, "add_to_collection", k.attr("literal", k.key("m%d" % i), name="mv%d" % i))
        if k.isinst(o, "XExtension"):
            for g in ("get_log_attributes", "get_trace_attributes", "get_event_attributes", "get_meta_attributes"):
                k.m(k.m(o, g), "add", k.attr("literal", k.key("d%d%s" % (i, g)), name="dv%d" % i))
        if k.isinst(o, "XAttributeNameMap"):
            k.m(o, "register_mapping", k.key("a%d" % i), k.word("b%d" % i))
        if k.isinst(o, "XAttributeInfo"):
            k.m(o, "register", k.attr("literal", k.key("r%d" % i), name="rv%d" % i))
        if k.isinst(o, "XEventClasses"):
            e = k.event(k.attr("literal", "concept:name", k.word("cn%d" % i)))
            k.m(o, "register", e)
        if k.isinst(o, "XTimeBounds"):
            k.m(o, "register", k.dt("td%d" % i))

    def snap(k, o):
        """Everything the public readers of o show."""
        out = []
        if k.opt(o, "get_attributes") is not None and not k.isinst(o, "XAttributeInfo"):
            out.append(k.views(o))
        if k.isinst(o, "XAttributeMap"):
            out += [k.len(o), k.m(o, "is_empty"), [k.str(x) for x in k.items(o)]]
        if k.isinst(o, "XLog"):
            out += [k.len(o)] + [len(k.items(k.m(o, g))) for g in (
                "get_extensions", "get_classifiers", "get_global_event_attributes", "get_global_trace_attributes",
                "get_features")]
        elif k.isinst(o, "XTrace"):
            out.append(k.len(o))
        if k.opt(o, "get_collection") is not None:
            out.append(len(k.items(k.m(o, "get_collection"))))
        elif k.opt(o, "get_value") is not None:
            out.append(k.value_of(o))
        if k.isinst(o, "XExtension"):
            out += [len(k.items(k.m(o, g))) for g in ("get_log_attributes", "get_trace_attributes", "get_event_attributes",
                                                      "get_meta_attributes", "get_defined_attributes")]
        if k.isinst(o, "XAttributeNameMap"):
            out += [k.m(o, "map", k.key("a%d" % i)) for i in range(3)]
        if k.isinst(o, "XAttributeInfo"):
            out += [len(k.items(k.m(o, g))) for g in ("get_attributes", "get_attribute_keys")]
            out += [k.m(o, "get_frequency", k.key("r%d" % i)) for i in range(3)]
        if k.isinst(o, "XEventClasses"):
            out += [len(k.items(k.m(o, "get_classes")))]
        if k.isinst(o, "XTimeBounds"):
            out += [k.m(o, "get_start_date"), k.m(o, "get_end_date")]
        if k.opt(o, "get_defining_attribute_keys") is not None:
            out += [tuple(k.items(k.m(o, "get_defining_attribute_keys")))]
        return out

    def independent(k, what):
        f = mk(what)
        a = f(k, 0)
        b = f(k, 1)
        k.ok(a is not b, "%s: constructing twice gives one object" % what)
        first = snap(k, f(k, 2))
        s = snap(k, b)
        change(k, a, 0)
        k.same(snap(k, b), s, "state of one %s after another was changed" % what)
        c = f(k, 2)
        s2 = snap(k, c)
        change(k, b, 1)
        k.same(snap(k, c), s2, "state of a %s after an earlier one was changed" % what)
        fresh = f(k, 2)
        k.same(snap(k, fresh), first, "state of a new %s after others were changed" % what)

    whats = ["XEvent", "XTrace", "XLog", "XElement", "XAttributable", "XAttributeMap", "XExtension", "XAttributeNameMap",
             "XAttributeInfo", "XTimeBounds", "XEventClasses", "XEventAttributeClassifier", "XEventAndClassifier"]
    whats += ["attr-" + x for x in ALL]
    whats += ["create_event", "create_trace", "create_log", "create_attribute_map"]
    whats += ["create_attribute_" + x for x in ("literal", "boolean", "continuous", "discrete", "timestamp", "id", "list",
                                                "container")]
    for w in whats:
        for warm in (True, False):
            k.scenario("independent/%s/%s" % (w, "warm" if warm else "cold"), lambda k, w=w: independent(k, w), warm=warm)

    # extensions used by an element -----------------------------------------
    def exts(k, kd, depth):
        a, b = k.new("XConceptExtension"), k.new("XTimeExtension")
        own = k.new("XExtension", k.word("n"), k.word("p"), k.word("uri", excl="/"))
        top = k.attr(kd, k.key("top"), ext=a)
        cur = top
        want = [a]
        for d in range(depth):
            n = k.attr("literal", k.key("n%d" % d), ext=(own, None, b)[d % 3], name="nv%d" % d)
            k.put(cur, n)
            cur = n
            if d % 3 != 1:
                want.append((own, None, b)[d % 3])
        plain = k.attr("discrete", k.key("plain"))
        e = k.event(top, plain)
        got = k.items(k.m(e, "get_extensions"))
        at = k.last
        k.ok(len(got) == len({id(x) for x in want}) and all(any(g is w for g in got) for w in want),
             "extensions of an element are not those of its attributes, nested ones included", at)
        k.same(len(k.items(k.m(plain, "get_extensions"))), 0, "extensions of an attribute without any", at)
        nested = k.items(k.m(top, "get_extensions"))
        k.ok(all(any(g is w for g in nested) for w in want[1:]) and len(nested) == len(want) - 1,
             "extensions of an attribute are those of its nested attributes", at)
    for kd in ALL:
        for depth in (0, 1, 2, 3):
            k.scenario("extensions/%s/%d" % (kd, depth), lambda k, kd=kd, d=depth: exts(k, kd, d))


    # one object changed again and again, and many made between: the others, made before or after, show nothing of it
    def many_times(k, what, n):
        f = mk(what)
        a, b = f(k, 0), f(k, 1)
        first, s = snap(k, f(k, 2)), snap(k, b)
        others = [f(k, i) for i in range(2, n + 2)]
        for i in range(n):
            if k.opt(a, "get_attributes") is not None and not k.isinst(a, "XAttributeInfo"):
                k.put(a, k.attr("literal", "added%d" % i, "v"))
            if k.isinst(a, "XLog"):
                k.append(a, k.trace())
                k.m(a, "set_features", "f%d" % i, "v")
                for g in ("get_classifiers", "get_global_event_attributes", "get_global_trace_attributes"):
                    k.append(k.m(a, g), "x%d" % i)
            elif k.isinst(a, "XTrace"):
                k.append(a, k.event())
            if k.opt(a, "add_to_collection") is not None:
                k.m(a, "add_to_collection", k.attr("literal", "m%d" % i, "v"))
            if k.isinst(a, "XExtension"):
                for g in ("get_log_attributes", "get_trace_attributes", "get_event_attributes", "get_meta_attributes"):
                    k.m(k.m(a, g), "add", k.attr("literal", "d%d" % i, "v"))
            if k.isinst(a, "XAttributeNameMap"):
                k.m(a, "register_mapping", "a%d" % i, "b%d" % i)
            if k.isinst(a, "XAttributeInfo"):
                k.m(a, "register", k.attr("literal", "r%d" % i, "v"))
            if k.isinst(a, "XEventClasses"):
                k.m(a, "register", k.event(k.attr("literal", "concept:name", "c%d" % i)))
        k.same(snap(k, b), s, "state of one %s after another was changed many times" % what)
        k.same(snap(k, f(k, 2)), first, "state of a new %s after another was changed many times" % what)
        for i, o in enumerate(others):
            k.ok(o is not a and o is not b and all(o is not p for p in others[:i]), "%s: two of many are one object" % what)
            k.same(snap(k, o), snap(k, f(k, i + 2)), "state of one %s of many" % what)
    for w in whats:
        if w != "XTimeBounds":
            k.scenario("many/%s" % w, lambda k, w=w: many_times(k, w, 20))


MIN_SCENARIOS = 60
