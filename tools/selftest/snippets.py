# --- lazy generator order
log = []
def g():
    for i in range(4):
        log.append("make %d" % i)
        yield i
for x in g():
    log.append("use %d" % x)
    if x == 2:
        break
out = log
# --- generator exhausted
def g():
    yield 1
    yield 2
it = g()
out = [list(it), list(it), next(it, "none")]
# --- yield from and return value
def a():
    got = yield 1
    yield got
it = a()
out = [next(it), it.send("x")]
# --- contextmanager normal
import contextlib
log = []
@contextlib.contextmanager
def cm(n):
    log.append("in " + n)
    try:
        yield n
    finally:
        log.append("out " + n)
with cm("a") as x, cm("b") as y:
    log.append(x + y)
out = log
# --- contextmanager exception
from contextlib import contextmanager
log = []
@contextmanager
def cm():
    try:
        yield
    except ValueError:
        log.append("swallowed")
    finally:
        log.append("done")
with cm():
    raise ValueError("x")
try:
    with cm():
        raise KeyError("y")
except KeyError:
    log.append("key")
out = log
# --- exit stack
from contextlib import ExitStack, contextmanager
log = []
@contextmanager
def cm(n):
    log.append("in %d" % n)
    yield n
    log.append("out %d" % n)
with ExitStack() as stack:
    for i in range(3):
        stack.enter_context(cm(i))
    stack.callback(log.append, "cb")
out = log
# --- namedtuple
from collections import namedtuple
P = namedtuple("P", "x y")
p = P(1, y=2)
a, b = p
out = [p.x, p.y, p[0], a + b, p == (1, 2), list(p), p._replace(x=5).x, len(p)]
# --- namedtuple subclass
from collections import namedtuple
class P(namedtuple("P", ["x", "y"])):
    def total(self):
        return self.x + self.y
p = P(3, 4)
out = [p.total(), isinstance(p, tuple), p.x]
# --- namedtuple missing
from collections import namedtuple
P = namedtuple("P", "x y")
out = P(1)
# --- typing namedtuple
from typing import NamedTuple
class P(NamedTuple):
    x: int
    y: int = 7
    def total(self):
        return self.x + self.y
out = [P(1).total(), P(1, 2).y, P(y=3, x=1).x, tuple(P(1))]
# --- dataclass
from dataclasses import dataclass, field
@dataclass
class D:
    a: int
    b: list = field(default_factory=list)
    c: str = "c"
d, e = D(1), D(1)
d.b.append(2)
out = [d.a, d.b, e.b, d == e, D(1) == e, D(2, c="x").c]
# --- dataclass frozen
from dataclasses import dataclass
@dataclass(frozen=True)
class D:
    a: int
try:
    D(1).a = 2
    out = "set"
except AttributeError:
    out = [hash(D(1)) == hash(D(1)), D(1) in {D(1): 1}]
# --- dataclass inherit order
from dataclasses import dataclass
@dataclass(order=True)
class A:
    x: int = 0
@dataclass(order=True)
class B(A):
    y: int = 1
out = [B(1, 2) < B(1, 3), B().y, B(5).x]
# --- cached_property
from functools import cached_property
log = []
class C:
    @cached_property
    def v(self):
        log.append("computed")
        return 3
c = C()
out = [c.v, c.v, log, "v" in c.__dict__]
# --- lru_cache
from functools import lru_cache
log = []
@lru_cache(maxsize=None)
def f(x):
    log.append(x)
    return x * 2
out = [f(1), f(1), f(2), log]
# --- cmp_to_key
from functools import cmp_to_key
out = sorted([3, 1, 2], key=cmp_to_key(lambda a, b: b - a))
# --- singledispatch
from functools import singledispatch
@singledispatch
def f(x):
    return "other"
@f.register(str)
def _(x):
    return "str"
@f.register(int)
def _(x):
    return "int"
out = [f("a"), f(1), f(2.5), f(True)]
# --- singledispatch annotations
from functools import singledispatch
@singledispatch
def f(x):
    return "other"
@f.register
def _(x: str):
    return "str"
out = [f("a"), f(1)]
# --- partialmethod
from functools import partialmethod
class C:
    def put(self, key, value):
        return (key, value)
    name = partialmethod(put, "name")
out = C().name(3)
# --- partial
from functools import partial
out = partial(int, base=2)("101") if False else partial(max, 3)(5)
# --- wraps
from functools import wraps
def deco(f):
    @wraps(f)
    def inner(*args, **kw):
        return f(*args, **kw) + 1
    return inner
@deco
def two():
    return 2
out = [two(), two.__name__]
# --- total_ordering
from functools import total_ordering
@total_ordering
class V:
    def __init__(self, n):
        self.n = n
    def __eq__(self, o):
        return self.n == o.n
    def __lt__(self, o):
        return self.n < o.n
out = [V(1) <= V(1), V(2) > V(1), V(1) >= V(2)]
# --- reduce
from functools import reduce
out = [reduce(lambda a, b: a + b, [1, 2, 3]), reduce(lambda a, b: a + b, [], 7)]
# --- bisect
import bisect
a = [1, 3, 3, 5]
bisect.insort(a, 4)
out = [a, bisect.bisect_left(a, 3), bisect.bisect_right(a, 3), bisect.bisect([(1, 2)], 1, key=lambda p: p[0])]
# --- insort key
from bisect import insort_right
a = [(1, "a"), (2, "b")]
insort_right(a, (1, "c"), key=lambda p: p[0])
out = a
# --- itertools
import itertools
out = [list(itertools.islice(itertools.count(3), 2)), list(itertools.chain([1], [2])), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])),
       list(itertools.accumulate([1, 2, 3])), list(itertools.pairwise([1, 2, 3])), list(itertools.zip_longest([1], [2, 3])),
       [(k, list(v)) for k, v in itertools.groupby("aab")], list(itertools.product([1, 2], "a")), list(itertools.combinations([1, 2, 3], 2)),
       list(itertools.chain.from_iterable([[1], [2, 3]])), list(itertools.starmap(max, [(1, 2)])), list(itertools.compress("abc", [1, 0, 1])),
       list(itertools.repeat(1, 2)), list(itertools.filterfalse(None, [0, 1]))]
# --- tee and cycle
from itertools import tee, cycle
a, b = tee(iter([1, 2]))
c = cycle("ab")
out = [list(a), list(b), next(c), next(c), next(c)]
# --- chainmap
from collections import ChainMap
m = ChainMap({"a": 1}, {"a": 2, "b": 3})
out = [m["a"], m["b"], "c" in m, m.get("z", 0)]
# --- defaultdict counter deque
from collections import defaultdict, Counter, deque, OrderedDict
d = defaultdict(list)
d["a"].append(1)
c = Counter("aab")
q = deque([1, 2])
q.appendleft(0)
o = OrderedDict([("x", 1), ("y", 2)])
o.move_to_end("x")
out = [dict(d), c["a"], c["z"], list(q), q.popleft(), list(o)]
# --- descriptor
class Field:
    def __set_name__(self, owner, name):
        self.name = "_" + name
    def __get__(self, o, t=None):
        return self if o is None else getattr(o, self.name, "unset")
    def __set__(self, o, v):
        setattr(o, self.name, v * 2)
class C:
    f = Field()
c = C()
first = c.f
c.f = 4
out = [first, c.f, c._f]
# --- property
class C:
    def __init__(self):
        self._x = 1
    @property
    def x(self):
        return self._x
    @x.setter
    def x(self, v):
        self._x = v + 1
c = C()
c.x = 5
out = c.x
# --- init_subclass
class Base:
    found = []
    def __init_subclass__(cls, tag=None, **kw):
        Base.found.append((cls.__name__, tag))
class A(Base, tag="a"):
    pass
class B(Base):
    pass
out = Base.found
# --- metaclass
class M(type):
    def __new__(mcs, name, bases, ns):
        ns["tag"] = name.lower()
        return super().__new__(mcs, name, bases, ns)
class A(metaclass=M):
    pass
out = A.tag
# --- metaclass call singleton
class M(type):
    def __init__(cls, name, bases, ns):
        super().__init__(name, bases, ns)
        cls.inst = None
    def __call__(cls, *a):
        if cls.inst is None:
            cls.inst = super().__call__(*a)
        return cls.inst
class A(metaclass=M):
    def __init__(self, x):
        self.x = x
out = [A(1) is A(2), A(3).x]
# --- match statement
def f(v):
    match v:
        case []:
            return "empty"
        case [x]:
            return ("one", x)
        case [x, *rest]:
            return ("many", rest)
        case {"k": y}:
            return ("map", y)
        case str() as s if s.startswith("a"):
            return "a-str"
        case str():
            return "str"
        case 1 | 2:
            return "small"
        case None:
            return "none"
        case _:
            return "other"
out = [f([]), f([1]), f([1, 2, 3]), f({"k": 9}), f("abc"), f("b"), f(2), f(None), f(7.5)]
# --- match class
class P:
    __match_args__ = ("x", "y")
    def __init__(self, x, y):
        self.x, self.y = x, y
def f(p):
    match p:
        case P(0, y):
            return y
        case P(x=a):
            return a
out = [f(P(0, 3)), f(P(4, 1))]
# --- walrus and chained
data = [1, 5, 3]
out = [y for x in data if (y := x * 2) > 4]
# --- nonlocal closure
def counter():
    n = 0
    def bump():
        nonlocal n
        n += 1
        return n
    return bump
b = counter()
b()
out = b()
# --- star args
def f(a, *b, c=3, **d):
    return [a, list(b), c, d]
out = [f(1, 2, 3, c=4, e=5), f(*[1, 2], **{"z": 1})]
# --- slices
a = [0, 1, 2, 3, 4]
a[1:3] = [9]
b = a[::-1]
del a[0]
out = [a, b, a[-2:], "hello"[1:3], "hello"[::-1]]
# --- string methods
s = "  Hello, World "
out = [s.strip(), s.lower(), s.split(","), s.strip().partition(", "), "a-b-c".rpartition("-"), "a-b-c".rsplit("-", 1), "x".join(["1", "2"]),
       "abc".replace("b", "z"), "abc".find("c"), "abc".find("q"), "abc".startswith(("x", "a")), "abc".endswith("c"), "5".zfill(3), "a".center(3, "*"),
       "ab".title(), "abc".index("b"), "aXbX".count("X"), "abc".isalpha(), "12".isdigit(), "a\nb".splitlines(), "abc".removeprefix("a"), "abc".removesuffix("c"),
       "%s-%d" % ("a", 3), "{}-{x}".format(1, x=2), f"{3:03d}|{'a':>3}|{1.5!r}"]
# --- regex
import re
m = re.match(r"(\d+)-(\d+)", "12-34")
out = [m.group(1), m.groups(), re.sub("a", "b", "aXa"), re.split(",", "a,b"), re.findall(r"\d", "a1b2"), bool(re.fullmatch("a+", "aaa")), re.search("b", "abc").start()]
# --- exceptions
log = []
def f(x):
    try:
        if x:
            raise ValueError("v")
        return "ret"
    except ValueError as e:
        log.append(str(e))
        return "caught"
    else:
        log.append("else")
    finally:
        log.append("finally")
out = [f(0), f(1), log]
# --- exception chain
class E(Exception):
    def __init__(self, m, code=3):
        super().__init__(m)
        self.code = code
try:
    try:
        {}["a"]
    except KeyError as e:
        raise E("x") from e
except E as e:
    out = [e.code, str(e), type(e.__cause__).__name__, e.args[0]]
# --- with suppress
from contextlib import suppress
with suppress(KeyError):
    {}["a"]
out = 1
# --- loops else
def f(a):
    for x in a:
        if x == 2:
            break
    else:
        return "no"
    return "yes"
out = [f([1, 2]), f([1])]
# --- while else
n = 3
while n:
    n -= 1
else:
    n = "done"
out = n
# --- sorting
out = [sorted([3, 1, 2], reverse=True), sorted("bca"), sorted([("b", 1), ("a", 2)], key=lambda p: p[1]), max([1, 3, 2]), min([3, 1], default=0), max([], default=4),
       sum([1, 2]), any([0, 1]), all([]), list(zip([1, 2], "ab")), list(enumerate("ab", 1)), list(map(str, [1])), list(filter(None, [0, 1])), list(reversed([1, 2]))]
# --- dict methods
d = {"a": 1}
d.setdefault("b", []).append(2)
d.update(c=3)
x = d.pop("a")
out = [d, x, d.get("z"), list(d.items()), list(d.keys()), {**d, "q": 1}, {k: v for k, v in d.items() if k == "c"}, d | {"n": 0}, "b" in d, d.pop("zz", None), dict.fromkeys("ab", 0)]
# --- set methods
s = {1, 2}
s.add(3)
s.discard(9)
out = [s & {1}, s | {7}, s - {1}, s ^ {1, 9}, 2 in s, frozenset([1]) <= s, {1} < s, len(s)]
# --- comparison chain and ternary
x = 3
out = [1 < x < 5, 1 < x > 5, "a" if x else "b", x or 4, None or "z", not x, x is None, x != 4]
# --- int and float
out = [7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 5, 7 / 2, divmod(7, 2), abs(-3), round(2.567, 2), int("12"), float("1.5"), int(3.9), bool(""), 5 & 3, 5 | 3, 5 ^ 3, 1 << 3, ~5, hex(255), bin(5), ord("a"), chr(98)]
# --- unpack
a, *b = [1, 2, 3]
(c, d), e = (1, 2), 3
*f, g = "xyz"
out = [a, b, c, d, e, f, g]
# --- enum
import enum
class C(enum.Enum):
    A = 1
    B = "b"
out = [C.A.name, C.B.value, C(1) is C.A, C["B"] is C.B, [m.name for m in C], C.A == C.A, C.A != C.B]
# --- class attributes
class A:
    n = 0
    def __init__(self):
        type(self).n += 1
        self.__class__.last = self
A(); a = A()
out = [A.n, A.last is a, hasattr(a, "zz"), getattr(a, "zz", 5), isinstance(a, (int, A)), issubclass(A, object)]
# --- super multiple inheritance
class A:
    def who(self):
        return ["A"]
class B(A):
    def who(self):
        return ["B"] + super().who()
class C(A):
    def who(self):
        return ["C"] + super().who()
class D(B, C):
    def who(self):
        return ["D"] + super().who()
out = [D().who(), [k.__name__ for k in D.__mro__]]
# --- special methods
class V:
    def __init__(self, *xs):
        self.xs = list(xs)
    def __getitem__(self, i):
        return self.xs[i]
    def __len__(self):
        return len(self.xs)
    def __contains__(self, x):
        return x in self.xs
    def __add__(self, o):
        return V(*(self.xs + o.xs))
    def __radd__(self, o):
        return V(o, *self.xs)
    def __iter__(self):
        return iter(self.xs)
    def __bool__(self):
        return False
    def __call__(self, x):
        return x + 1
    def __repr__(self):
        return "V"
v = V(1, 2)
out = [v[0], len(v), 2 in v, list(v + V(3)), list(5 + v), bool(v), v(3), repr(v), str(v), [x for x in v], "%s" % v, f"{v}"]
# --- getattr hook
class A:
    def __getattr__(self, n):
        return "no " + n
    x = 1
a = A()
out = [a.x, a.y]
# --- getattribute hook
class A:
    x = 1
    def __getattribute__(self, n):
        if n == "y":
            return "hooked"
        return object.__getattribute__(self, n)
a = A()
out = [a.x, a.y]
# --- slots and del
class A:
    __slots__ = ("a",)
    def __init__(self):
        self.a = 1
x = A()
del x.a
out = [hasattr(x, "a")]
# --- instance dict
class A:
    def __init__(self, **kw):
        self.__dict__.update(kw)
a = A(x=1, y=2)
a.__dict__["z"] = 3
out = [a.x, a.y, a.z, sorted(vars(a))]
# --- global statement
n = 1
def f():
    global n
    n = 5
f()
out = n
# --- lambda default capture
fs = [lambda i=i: i for i in range(3)]
gs = [lambda: i for i in range(3)]
out = [[f() for f in fs], [g() for g in gs]]
# --- mutable default
def f(x, acc=[]):
    acc.append(x)
    return acc
f(1)
out = f(2)
# --- list methods
a = [3, 1]
a.extend([2])
a.insert(0, 9)
a.sort()
a.reverse()
b = a.copy()
b.remove(9)
out = [a, b, a.index(3), a.count(1), a.pop(), a.pop(0), a + [7], a * 2, [1] == [1], [1, 2] < [1, 3]]
# --- genexpr lazy
log = []
def f(x):
    log.append(x)
    return x > 1
out = [any(f(x) for x in [1, 2, 3]), log, next((x for x in [5, 6] if x > 5), None)]
# --- zip and map lazy consumption
it = iter([1, 2, 3])
z = list(zip(it, [10]))
out = [z, list(it)]
# --- iter sentinel
vals = [1, 2, 0, 3]
out = list(iter(lambda: vals.pop(0), 0))
# --- iterator class
class It:
    def __init__(self):
        self.n = 0
    def __iter__(self):
        return self
    def __next__(self):
        self.n += 1
        if self.n > 3:
            raise StopIteration
        return self.n
out = [list(It()), sum(It()), 2 in It()]
# --- generator with finally closed by break
log = []
def g():
    try:
        yield 1
        yield 2
    finally:
        log.append("closed")
for x in g():
    break
out = log
# --- generator close
log = []
def g():
    try:
        yield 1
    finally:
        log.append("closed")
it = g()
next(it)
it.close()
out = [log, list(it)]
# --- generator return in for
def g(n):
    if n == 0:
        return
    yield n
    yield from g(n - 1)
out = list(g(3))
# --- nested comprehension
out = [[(i, j) for j in range(2)] for i in range(2)], [x for r in [[1], [2, 3]] for x in r if x != 2], {i % 2 for i in range(4)}
# --- operator module
import operator
out = [operator.itemgetter(1)([4, 5]), operator.add(1, 2), operator.methodcaller("upper")("a"), operator.contains([1], 1), operator.itemgetter(0, 1)("ab")]
# --- heapq
import heapq
h = [3, 1, 2]
heapq.heapify(h)
out = [heapq.heappop(h), heapq.nsmallest(1, [4, 2])]
# --- os.path
import os
out = [os.path.join("a", "b"), os.path.splitext("x.tar.gz"), os.path.basename("/a/b.c"), os.path.dirname("/a/b.c")]
# --- pathlib
from pathlib import Path, PurePath
p = PurePath("/a/b.tar.gz")
out = [p.name, p.suffix, p.stem, str(p.parent), str(p / "c"), p.suffixes]
# --- datetime
import datetime
d = datetime.datetime(2020, 1, 2, 3, 4, 5)
out = [d.year, d.isoformat(), d.strftime("%Y")]
# --- string formatting objects
out = ["%-5s|" % "a", "%5.2f" % 3.14159, "%x" % 255, "{:>5}".format("a"), "{0}{0}".format("a"), "{!r}".format("a"), "%%", "a" "b"]
# --- assert
def f(x):
    assert x, "bad"
    return x
out = f(1)
# --- assert fails
assert 0
out = 1
# --- try in loop continue
log = []
for i in range(3):
    try:
        if i == 1:
            continue
        log.append(i)
    finally:
        log.append("f")
out = log
# --- return in finally
def f():
    for i in range(3):
        try:
            return i
        finally:
            if i == 0:
                break
    return "after"
out = f()
# --- raise from none
try:
    raise KeyError("k")
except (ValueError, KeyError) as e:
    out = [type(e).__name__, isinstance(e, LookupError)]
# --- del dict and attr
d = {"a": 1}
del d["a"]
class A: pass
a = A(); a.x = 1; del a.x
out = [d, hasattr(a, "x")]
# --- ellipsis and pass
def f(): ...
out = f()
# --- conditional import
try:
    import nonexistent_module_xyz as q
except ImportError:
    q = None
out = q
# --- eq and hash
class K:
    def __init__(self, n):
        self.n = n
    def __eq__(self, o):
        return isinstance(o, K) and self.n == o.n
    def __hash__(self):
        return hash(self.n)
d = {K(1): "a"}
out = [d[K(1)], K(2) in d, K(1) == K(1), K(1) != K(2), len({K(1), K(1)})]
# --- unhashable
class K:
    def __eq__(self, o):
        return True
out = {K(): 1}
# --- notimplemented
class A:
    def __eq__(self, o):
        return NotImplemented
    def __lt__(self, o):
        return NotImplemented
out = [A() == A(), A() != 1]
# --- reflected compare
class A:
    def __gt__(self, o):
        return True
out = 1 < A()
# --- list of lists alias
a = [[0]] * 2
a[0].append(1)
out = a
# --- augmented aliasing
a = [1]
b = a
b += [2]
c = (1,)
d = c
d += (2,)
out = [a, c, d]
# --- str iteration and compare
out = ["a" < "b", "abc"[0], list("ab"), "a" in "abc", "" in "a", "a" * 3, max("ab")]
# --- bytes
out = ["é".encode("utf-8").decode("utf-8"), b"ab".decode(), len("é".encode("utf-8"))]
# --- staticmethod and classmethod
class A:
    @staticmethod
    def s(x):
        return x
    @classmethod
    def c(cls, x):
        return (cls.__name__, x)
class B(A):
    pass
out = [A.s(1), B.c(2), B().c(3), B().s(4)]
# --- class body code
class A:
    table = {}
    for _n in ("a", "b"):
        table[_n] = _n * 2
    def get(self, k):
        return self.table[k]
out = A().get("b")
# --- type three args
A = type("A", (object,), {"x": 1, "f": lambda self: self.x})
out = [A().f(), A.__name__]
# --- setattr loop
class A: pass
for n in ("p", "q"):
    setattr(A, n, property(lambda self, n=n: n.upper()))
out = [A().p, A().q]
# --- method assigned
class A:
    def f(self):
        return 1
    g = f
out = A().g()
# --- abstract
from abc import ABC, abstractmethod
class A(ABC):
    @abstractmethod
    def f(self): ...
class B(A):
    def f(self):
        return 2
out = B().f()
# --- abstract instantiate
from abc import ABC, abstractmethod
class A(ABC):
    @abstractmethod
    def f(self): ...
out = A()
# --- string io
import io
s = io.StringIO()
s.write("a")
s.write("b")
out = s.getvalue()
# --- weak truthiness
class A:
    def __len__(self):
        return 0
out = [bool(A()), not A(), (A() or 1)]
# --- sort stability and key none
a = [("b", 2), ("a", 2), ("c", 1)]
a.sort(key=lambda p: p[1])
out = [a, sorted(a, key=None)]
# --- multiple assignment order
a = [0, 1]
i = 0
i, a[i] = 1, 9
out = [i, a]
# --- try else finally order
log = []
try:
    log.append(1)
except Exception:
    log.append(2)
else:
    log.append(3)
finally:
    log.append(4)
out = log
# --- recursion
def fact(n):
    return 1 if n < 2 else n * fact(n - 1)
out = fact(6)
# --- copy
import copy
a = {"x": [1]}
b = copy.copy(a)
c = copy.deepcopy(a)
a["x"].append(2)
out = [b, c]
# --- simple namespace
from types import SimpleNamespace, MappingProxyType
n = SimpleNamespace(a=1)
n.b = 2
out = [n.a, n.b, MappingProxyType({"k": 1})["k"]]
# --- is_ and id
a = []
out = [a is a, a is not [], id(a) == id(a)]
# --- decorator class
class count:
    def __init__(self, f):
        self.f, self.n = f, 0
    def __call__(self, *a):
        self.n += 1
        return self.f(*a)
@count
def f(x):
    return x
f(1); f(2)
out = [f.n, f(3)]
# --- decorator with method
def twice(f):
    def inner(self, *a):
        return f(self, *a) * 2
    return inner
class A:
    @twice
    def f(self, x):
        return x
out = A().f(4)
# --- warnings and logging
import warnings, logging
warnings.warn("x", DeprecationWarning)
logging.getLogger("a").debug("z")
out = 1
# --- print
print("", end="")
out = 1
# --- hash and arity errors
class A:
    def __hash__(self):
        return None
class B:
    def __eq__(self, o):
        return True
out = []
def attempt(f):
    try:
        f()
        out.append("ok")
    except TypeError:
        out.append("TypeError")
for c in (A, B):
    attempt(lambda: hash(c()))
    attempt(lambda: {c(): 1})
    attempt(lambda: c() in {1, 2})
attempt(lambda: isinstance(3))
attempt(lambda: len())
attempt(lambda: len([], []))
attempt(lambda: [].append())
attempt(lambda: [].append(1, 2))
attempt(lambda: {}.get())
attempt(lambda: {}.get(1))
attempt(lambda: "a".lower(2))
attempt(lambda: "a".split(",", 1, 2))
attempt(lambda: "a".split(",", maxsplit=1))
attempt(lambda: "a".replace("a"))
attempt(lambda: setattr(A(), "x"))
attempt(lambda: getattr(A()))
attempt(lambda: [].insert(1))
attempt(lambda: [3].sort(reverse=True))
attempt(lambda: {}.setdefault(1))
attempt(lambda: str.lower("A"))
attempt(lambda: str.lower())
# --- arithmetic with dates that is not defined
from datetime import datetime, timedelta
d, t = datetime(2020, 1, 2, 3, 4, 5), timedelta(hours=1)
out = []
def attempt(f):
    try:
        f()
        out.append("ok")
    except TypeError:
        out.append("TypeError")
attempt(lambda: d / 1000)
attempt(lambda: d + 1)
attempt(lambda: d - 1)
attempt(lambda: 1 - d)
attempt(lambda: d * 2)
attempt(lambda: d + d)
attempt(lambda: t - d)
attempt(lambda: d % t)
attempt(lambda: t + d)
attempt(lambda: d - t)
attempt(lambda: d - d)
# --- identifiers known in full
import uuid
u, v = uuid.UUID("C232AB00-9414-11EC-B3C8-9F6BDECED846"), uuid.UUID("{" + "0" * 32 + "}")
out = [str(u), u == v, u == uuid.UUID(u.hex), v.int, bool(v), u.hex, int(v), str(uuid.UUID(str(u), version=4)), u != v]
# --- splitting once
def cut(s):
    return s.split(".", 1)
out = [cut("a.b.c"), cut("ab"), cut("."), cut("a."), "a b  c".split(" ", 1), " ".join("a  b c".split())]
