"""Support folders and diagnostics, by abstract interpretation over modelled platforms, disks and listeners."""
from ..terms import show
from ..libs import on_platform
METHOD = ("Abstract interpretation of the runtime utilities on a model of each platform (its name, path rules, home directory and "
          "what exists below it), and of the logging facility with listeners of the client's own, over sequences of calls.")
RULE = ("support folder == the platform's place below the home directory; cache == its subfolder ExtensionCache; both exist afterwards, "
        "nothing else was created; exactly the platform's predicates hold; each message reaches the listener set last, once, in order")
ASSUMES = ["the home directory exists and may be written to"]
PLACES = {"linux": ("/home/u", "/home/u/.OpenXES"), "linux2": ("/home/u", "/home/u/.OpenXES"), "freebsd13": ("/usr/home/u", "/usr/home/u/.OpenXES"),
          "darwin": ("/Users/u", "/Users/u/Library/Application Support/OpenXES"), "win32": ("C:\\Users\\u", "C:\\Users\\u\\OpenXES")}
HOLDS = {"linux": ("linux", "unix"), "linux2": ("linux", "unix"), "freebsd13": ("unix",), "darwin": ("mac_os_x", "unix"), "win32": ("windows",)}


def run(k):
    def on(k, name, existing=0):
        on_platform(k.I, name)
        home, place = PLACES[name]
        pp = k.I.pp
        dirs, d = set(), home
        while d not in dirs:
            dirs.add(d)
            d = pp.dirname(d)
        if existing:
            d = place
            while d not in dirs:
                dirs.add(d)
                d = pp.dirname(d)
        if existing > 1:
            dirs.add(pp.join(place, "ExtensionCache"))
        k.I.disk = {"dirs": set(dirs), "home": home, "now": 0.0}
        k.I.faults[("env", "USERPROFILE" if name == "win32" else "HOME")] = home
        k.I.fs.clear()
        return pp, dirs, place

    def path(k, pp, v, what):
        if not isinstance(v, str):
            k.guard_taint(v)
            k.fail("%s: got %s" % (what, show(v)), k.last)
        return pp.normpath(v)

    def created(k, pp, before, places, what):
        want = set(before)
        for d in places:
            while d not in want:
                want.add(d)
                d = pp.dirname(d)
        k.same(sorted(k.I.disk["dirs"]), sorted(want), "%s: folders that exist" % what, k.last)
        k.same(sorted(k.I.fs), [], "%s: files that exist" % what, k.last)

    def folders(k, name, existing, order):
        pp, before, place = on(k, name, existing)
        u = k.new("XRuntimeUtils")
        created(k, pp, before, [], "nothing was asked for")
        made = []
        for step in order:
            if step == "new":
                u = k.new("XRuntimeUtils")
            elif step == "support":
                k.same(path(k, pp, k.m(u, "get_support_folder"), "support folder"), place, "support folder", k.last)
                made.append(place)
            else:
                k.same(path(k, pp, k.m(u, "get_extension_cache_folder"), "cache folder"), pp.join(place, "ExtensionCache"), "cache folder", k.last)
                made.append(pp.join(place, "ExtensionCache"))
            created(k, pp, before, made, step)
    for name in PLACES:
        for existing in (0, 1, 2):
            for order in (("support",), ("cache",), ("support", "cache", "support", "new", "cache"), ("cache", "cache", "new", "support")):
                k.scenario("folders/%s/%d/%s" % (name, existing, "-".join(order)), lambda k, a=(name, existing, order): folders(k, *a), warm="empty")

    def predicates(k, name, order):
        on(k, name)
        u = k.new("XRuntimeUtils")
        for p in order:
            if p == "os":
                k.same(k.m(u, "determine_os"), name, "platform", k.last)
            else:
                k.same(k.truth(k.m(u, "is_running_" + p)), p in HOLDS[name], "is_running_%s on %s" % (p, name), k.last)
    ALLP = ("windows", "mac_os_x", "linux", "unix", "os")
    for name in PLACES:
        for order in (ALLP, ALLP[::-1], ALLP * 2):
            k.scenario("platform/%s/%s" % (name, len(order) if order is not ALLP[::-1] else "reversed"),
                       lambda k, a=(name, order): predicates(k, *a), warm="empty")

    # ---- messages
    LISTENER = """
        class L:
            def __init__(self):
                self.got = []
            def log(self, message, importance):
                self.got.append((message, importance))
        class Static:
            got = []
            @staticmethod
            def log(message, importance):
                Static.got.append((message, importance))
        """
    LEVELS = ("DEBUG", "INFO", "WARNING", "ERROR")

    def got(k, l):
        return [tuple(x.payload) for x in k.items(k.I.getattr(l, "got"))]

    def messages(k, form):
        ns = k.client(LISTENER)
        imp = [k.I.getattr(k.const("XLogging", "Importance"), n) for n in LEVELS]
        k.ok(len({show(i) for i in imp}) == 4, "two degrees of importance are one")
        a, b = k.new("XLogging"), k.new("XLogging")
        l1 = ns["Static"] if form == "static" else k.call(ns["L"])
        l2 = k.call(ns["L"])
        k.m(a, "set_listener", l1)
        want = []
        for i, lv in enumerate(imp + imp[::-1]):
            msg = "" if i == 3 else k.text("message%d" % i)
            k.m(a, "log", msg, lv)
            want.append((msg, lv))
            k.same(got(k, l1), want, "messages the listener got", k.last)
        for i, lv in enumerate([None] + imp[::-1] + imp):
            if lv is not None:
                k.m(a, "log", "between", lv)
                want.append(("between", lv))
            msg = k.text("plain%d" % i)
            k.m(a, "log", msg)
            want.append((msg, imp[0]))
            k.same(got(k, l1), want, "messages the listener got (one without importance)", k.last)
        out = len(k.I.output)
        k.m(a, "set_listener", l2)
        k.m(a, "log", "second", imp[3])
        k.same(got(k, l1), want, "messages the listener replaced got", k.last)
        k.same(got(k, l2), [("second", imp[3])], "messages the listener set last got", k.last)
        k.same(len(k.I.output), out, "lines on standard output although a listener is set", k.last)
        k.m(b, "log", "third", imp[2])
        k.same(got(k, l2), [("second", imp[3])], "messages another logging object got", k.last)
        k.ok(len(k.I.output) > out, "a message of a logging object without listener of its own is not printed", k.last)
        out = len(k.I.output)
        k.m(a, "set_listener", None)
        k.m(a, "log", "fourth", imp[3])
        k.m(a, "log", "fifth")
        k.same((got(k, l1), got(k, l2), len(k.I.output)), (want, [("second", imp[3])], out), "messages without any listener", k.last)
        k.m(a, "set_listener", l1)
        k.m(a, "log", "sixth", imp[1])
        k.same(got(k, l1), want + [("sixth", imp[1])], "messages after the listener was set again", k.last)
    for form in ("object", "static"):
        k.scenario("messages/%s" % form, lambda k, f=form: messages(k, f))

    def printed(k, given):
        imp = [k.I.getattr(k.const("XLogging", "Importance"), n) for n in LEVELS]
        a = k.new("XLogging")
        for i, lv in enumerate(imp if given else [None]):
            out = len(k.I.output)
            msg = k.text("message%d" % i)
            k.m(a, "log", msg, *([lv] if given else []))
            at = k.last
            text = " ".join(show_all(o[0]) for o in k.I.output[out:])
            k.same(text.count("message%d" % i), 1, "times the message is printed", at)
            k.ok((lv or imp[0]) in text, "what is printed does not hold the importance", at)

    def show_all(args):
        return " ".join(a if isinstance(a, str) else show(a) for a in args)
    for given in (True, False):
        k.scenario("printed/%s" % ("importance" if given else "default"), lambda k, g=given: printed(k, g))


    def many(k, n, form):
        """Many long messages, and listeners changed on the way: each message reaches the listener of its time, in order."""
        ns = k.client(LISTENER)
        imp = [k.I.getattr(k.const("XLogging", "Importance"), x) for x in LEVELS]
        a = k.new("XLogging")
        ls, want = [k.call(ns["L"]) for _ in range(5)], [[] for _ in range(5)]
        for i in range(n):
            j = (i // 4) % 5
            if i % 4 == 0:
                k.m(a, "set_listener", ls[j])
            msg = {"long": "m%d " % i + "word " * (i * 50), "same": "message", "short": "m%d" % i}[form]
            k.m(a, "log", msg, imp[i % 4])
            want[j].append((msg, imp[i % 4]))
        for l, w in zip(ls, want):
            k.same(got(k, l), w, "messages a listener got", k.last)
    for n in (9, 33, 100):
        for form in ("long", "same", "short"):
            k.scenario("many-messages/%d/%s" % (n, form), lambda k, a=(n, form): many(k, *a))

    def folders_often(k, name):
        pp, before, place = on(k, name, 0)
        for i in range(20):
            u = k.new("XRuntimeUtils")
            k.same(path(k, pp, k.m(u, "get_extension_cache_folder"), "cache folder"), pp.join(place, "ExtensionCache"), "cache folder asked again", k.last)
            k.same(path(k, pp, k.m(u, "get_support_folder"), "support folder"), place, "support folder asked again", k.last)
        created(k, pp, before, [pp.join(place, "ExtensionCache")], "asked many times")
    for name in PLACES:
        k.scenario("folders/%s/often" % name, lambda k, n=name: folders_often(k, n), warm="empty")


MIN_SCENARIOS = 50
