"""Shared builders for the property scenarios."""

LEAF = ("literal", "discrete", "continuous", "boolean-true", "boolean-false", "timestamp", "id")
ALL = LEAF + ("list", "container")


def nested(k, kd, pre, ext=None, depth=2, kinds=("literal", "discrete")):
    """An attribute of kind kd carrying nested attributes `depth` levels deep.

    Lists and containers additionally hold children, which carry nested
    attributes of their own.
    """
    a = k.attr(kd, k.key(pre + ".key"), ext=ext, name=pre + ".v")
    if kd in ("list", "container"):
        for i, ck in enumerate(kinds):
            c = k.attr(ck, k.key("%s.c%d.key" % (pre, i)), name="%s.c%d.v" % (pre, i))
            if depth > 1:
                k.put(c, k.attr("literal", k.key("%s.c%d.n.key" % (pre, i)), name="%s.c%d.n.v" % (pre, i)))
            k.get(a, "add_to_collection", c)
    b = a
    for d in range(depth):
        n = k.attr(kinds[d % len(kinds)], k.key("%s.n%d.key" % (pre, d)), name="%s.n%d.v" % (pre, d))
        k.put(b, n)
        b = n
    return a


def mutate(k, a, pre):
    """Change everything that can be changed about attribute a through its API."""
    kd = k.kind_of(a)
    for _, n in k.attrs(a):
        mutate(k, n, pre + ".m")
    if kd in ("XAttributeList", "XAttributeContainer"):
        for c in k.items(k.get(a, "get_collection")):
            mutate(k, c, pre + ".mc")
        k.get(a, "add_to_collection", k.attr("literal", k.key(pre + ".addkey"), name=pre + ".addv"))
    elif kd == "XAttributeBoolean":
        k.get(a, "set_value", k.I.norm(k.get(a, "get_value")) is not True)
    elif kd == "XAttributeTimestamp":
        k.get(a, "set_value", k.dt(pre + ".t2"))
    elif kd == "XAttributeID":
        k.get(k.get(a, "get_value"), "set_uuid", k.uuid(pre + ".u2"))
        k.get(a, "set_value", k.xid(pre + ".u3"))
    elif kd == "XAttributeDiscrete":
        k.get(a, "set_value", k.int(pre + ".i2"))
    elif kd == "XAttributeContinuous":
        k.get(a, "set_value", k.float(pre + ".f2"))
    else:
        k.get(a, "set_value", k.text(pre + ".s2"))
    k.put(a, k.attr("literal", k.key(pre + ".newkey"), name=pre + ".newv"))


def mutate_element(k, o, pre):
    for _, a in k.attrs(o):
        mutate(k, a, pre)
    k.put(o, k.attr("literal", k.key(pre + ".elkey"), name=pre + ".elv"))


# Numbers of elements, depths and lengths of text analysed besides the small ones: around the usual portion and table sizes.
SIZES = (9, 16, 33, 64, 100)
BIG = (257, 1000, 1024)
DEPTHS = (6, 9, 17, 40)
LENGTHS = (33, 100, 257, 1100, 5000)


def moments(k):
    """A fixed point in time per number: moments(k)(n) is n seconds after the beginning of 2020 (UTC)."""
    return k.client("from datetime import datetime, timedelta, timezone\n"
                    "def at(n):\n    return datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=n)\n")["at"]


def shuffled(n):
    """The numbers below n in a fixed order that is neither rising nor falling."""
    s = next(s for s in (7, 11, 13, 17, 19, 23) if n % s)
    return [(i * s + n // 2) % n for i in range(n)]


# Texts a conversion could mistake for something else, or not keep as they are.
TEXTS = ("two  blanks", "a b c", "0", "-0", "00", "1", "1.0", "1e5", "+1", "0x1f", "nan", "inf", "None", "none", "null", "true", "True", "false",
         "UNKNOWN", "DEFAULT_VALUE", "2020-01-01T00:00:00Z", "c232ab00-9414-11ec-b3c8-9f6bdeced846", "[]", "[a:b]", "<a/>", "&amp;", "&#10;",
         "&", "<", ">", "\"", "'", "''", "\"a\" 'b'", "]]>", "<!--x-->", "<![CDATA[x]]>", "a;b", "a,b", "a:b", "a=b", "a\\b", "\\n", "%20", "%s",
         "{}", "{0}", "$x", "&&", "a&&b", "\u00e4\u00f6\u00fc\u00df", "\u20ac", "\u4e2d\u6587", "\U0001d11e", "e\u0301", "\u0130I\u0131i", "\u00a0x\u00a0", "MiXeD", ".", "..",
         "a.", "-", "--", "_", "/", "x/y", "#", "?", "!", "@", "~", "*", "|", "^", "`")


# Keys a special case could single out: those of the standard extensions, others under their prefixes, and words of the formats.
PREFIXES = {"concept": ("XConceptExtension", "name instance"), "cost": ("XCostExtension", "total currency drivers amount driver type"),
            "identity": ("XIdentityExtension", "id"), "lifecycle": ("XLifecycleExtension", "model transition"),
            "micro": ("XMicroExtension", "level parentId length"), "org": ("XOrganizationalExtension", "resource role group"),
            "semantic": ("XSemanticExtension", "modelReference"), "time": ("XTimeExtension", "timestamp")}
WORDS = ("name", "id", "description", "source", "key", "value", "values", "type", "program", "UNKNOWN", "DEFAULT_VALUE", "None", "none", "trace",
         "event", "log", "Data", "case", "string", "list", "container", "global", "xes.version", "openxes.version", "children", "process", "a-b",
         "_x", "X", "0", "two words", "org", "concept", "time", "Name", "ID", "uuid", "self", "default", "count", "frequency", "A", "&&", "a&b",
         "<x>", "\"q\"", "\u00e4\u20ac", "x.y", "x/y", "#", "%s", "{}", "other:name", "other:a:b", ":", ":x", "x:")


def std_keys():
    """(key, extension class or None) of all of these keys."""
    out = []
    for p, (cn, names) in PREFIXES.items():
        out += [(p + ":" + n, cn) for n in names.split() + ["other", "Name", "", "a:b"]]
    return out + [(w, None) for w in WORDS]


def keyed(k, o, rot=0, skip=(), kinds=LEAF, nest=False, only=None):
    """Attributes with all of these keys, of kinds that go round, on o (nested below the one before it, if asked for); the attributes."""
    out = []
    for i, (key, cn) in enumerate(std_keys()):
        if key in skip or only is not None and not only(key):
            continue
        kd = kinds[(i + rot) % len(kinds)]
        v = {"literal": "v%d" % i, "discrete": i, "continuous": 0.5 + i, "id": None}.get(kd)
        a = k.attr(kd, key, v, ext=k.new(cn) if cn else None, name="x%d" % i)
        k.put(out[-1] if nest and i % 3 and out else o, a)
        out.append(a)
    return out
