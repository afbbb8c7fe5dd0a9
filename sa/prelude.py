"""Library functions that are themselves plain Python: analysed from this text like the code that calls them."""
MODULES = {
"functools": '''
def lru_cache(maxsize=128, typed=False):
    def decorate(function):
        found = {}

        def cached(*args, **kw):
            key = (args, tuple(kw.items()))
            if key not in found:
                found[key] = function(*args, **kw)
            return found[key]

        def clear():
            found.clear()
        cached.cache_clear = clear
        return cached
    if callable(maxsize):
        return decorate(maxsize)
    return decorate


def cache(function):
    return lru_cache(None)(function)


class _Keyed:
    def __init__(self, compare, value):
        self.compare, self.value = compare, value

    def __lt__(self, other):
        return self.compare(self.value, other.value) < 0

    def __gt__(self, other):
        return self.compare(self.value, other.value) > 0

    def __le__(self, other):
        return self.compare(self.value, other.value) <= 0

    def __ge__(self, other):
        return self.compare(self.value, other.value) >= 0

    def __eq__(self, other):
        return self.compare(self.value, other.value) == 0


def cmp_to_key(compare):
    return lambda value: _Keyed(compare, value)


class cached_property:
    def __init__(self, function):
        self.function, self.name = function, function.__name__

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        value = self.function(instance)
        object.__setattr__(instance, self.name, value)
        return value


def singledispatch(function):
    table = {object: function}

    def dispatch(kind):
        for base in kind.__mro__:
            if base in table:
                return table[base]

    def call(*args, **kw):
        return dispatch(args[0].__class__)(*args, **kw)

    def register(kind, target=None):
        if target is None:
            if not isinstance(kind, type):
                target, kind = kind, list(kind.__annotations__.values())[0]
            else:
                return lambda target: register(kind, target)
        table[kind] = target
        return target
    call.register = register
    call.dispatch = dispatch
    return call


class singledispatchmethod:
    def __init__(self, function):
        self.table = {object: function}

    def register(self, kind, target=None):
        if target is None:
            if not isinstance(kind, type):
                target, kind = kind, list(kind.__annotations__.values())[0]
            else:
                return lambda target: self.register(kind, target)
        self.table[kind] = target
        return target

    def __get__(self, instance, owner=None):
        def call(*args, **kw):
            for base in args[0].__class__.__mro__:
                if base in self.table:
                    return self.table[base](instance, *args, **kw)
        return call


class partialmethod:
    def __init__(self, function, *args, **kw):
        self.function, self.args, self.kw = function, args, kw

    def __get__(self, instance, owner=None):
        return lambda *args, **kw: self.function(instance, *self.args, *args, **{**self.kw, **kw})


def update_wrapper(wrapper, wrapped):
    return wrapper
''',
"contextlib": '''
class _Manager:
    def __init__(self, items):
        self.items = items

    def __enter__(self):
        return next(self.items)

    def __exit__(self, kind, value, traceback):
        if kind is None:
            for _ in self.items:
                raise RuntimeError("generator didn't stop")
            return False
        try:
            self.items.throw(value)
        except StopIteration:
            return True
        except BaseException as error:
            if error is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(function):
    def make(*args, **kw):
        return _Manager(function(*args, **kw))
    return make


class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, kind, value, traceback):
        return None


class ContextDecorator:
    pass


class ExitStack:
    def __init__(self):
        self.pending = []

    def enter_context(self, manager):
        value = manager.__enter__()
        self.pending.append(manager.__exit__)
        return value

    def push(self, manager):
        self.pending.append(manager.__exit__)
        return manager

    def callback(self, function, *args, **kw):
        def leave(kind, value, traceback):
            function(*args, **kw)
            return False
        self.pending.append(leave)
        return function

    def pop_all(self):
        other = ExitStack()
        other.pending, self.pending = self.pending, []
        return other

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, kind, value, traceback):
        swallowed = False
        while self.pending:
            leave = self.pending.pop()
            if leave(kind, value, traceback):
                kind, value, traceback = None, None, None
                swallowed = True
        return swallowed
''',
"bisect": '''
def bisect_right(items, x, lo=0, hi=None, *, key=None):
    hi = len(items) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (items[mid] if key is None else key(items[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo


def bisect_left(items, x, lo=0, hi=None, *, key=None):
    hi = len(items) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (items[mid] if key is None else key(items[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


bisect = bisect_right


def insort_right(items, x, lo=0, hi=None, *, key=None):
    items.insert(bisect_right(items, x if key is None else key(x), lo, hi, key=key), x)


def insort_left(items, x, lo=0, hi=None, *, key=None):
    items.insert(bisect_left(items, x if key is None else key(x), lo, hi, key=key), x)


insort = insort_right
''',
"collections": '''
class UserDict(dict):
    pass


class UserList(list):
    pass


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for table in self.maps:
            if key in table:
                return table[key]
        raise KeyError(key)

    def get(self, key, default=None):
        for table in self.maps:
            if key in table:
                return table[key]
        return default

    def __contains__(self, key):
        return any(key in table for table in self.maps)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __iter__(self):
        seen = {}
        for table in reversed(self.maps):
            seen.update(table)
        return iter(seen)

    def __len__(self):
        return len(list(iter(self)))


def namedtuple(name, fields, defaults=()):
    fields = fields.replace(",", " ").split() if isinstance(fields, str) else list(fields)
    return _named(name, fields, dict(zip(fields[len(fields) - len(defaults):], defaults)))


def _named(name, fields, defaults):
    class Named(tuple):
        _fields = tuple(fields)

        def __new__(cls, *args, **kw):
            if len(args) > len(fields):
                raise TypeError("too many arguments")
            values = list(args)
            for field in fields[len(args):]:
                if field in kw:
                    values.append(kw.pop(field))
                elif field in defaults:
                    values.append(defaults[field])
                else:
                    raise TypeError("missing argument " + field)
            if kw:
                raise TypeError("unexpected argument")
            return tuple.__new__(cls, values)

        def _asdict(self):
            return dict(zip(fields, self))

        def _replace(self, **kw):
            return self.__class__(*[kw.get(field, value) for field, value in zip(fields, self)])

        def __getattr__(self, wanted):
            if wanted in fields:
                return self[fields.index(wanted)]
            raise AttributeError(wanted)
    return Named
''',
"types": '''
class SimpleNamespace:
    def __init__(self, **kw):
        for name in kw:
            setattr(self, name, kw[name])

    def __eq__(self, other):
        return isinstance(other, SimpleNamespace) and self.__dict__ == other.__dict__


class MappingProxyType:
    def __init__(self, table):
        self.table = table

    def __getitem__(self, key):
        return self.table[key]

    def get(self, key, default=None):
        return self.table.get(key, default)

    def __contains__(self, key):
        return key in self.table

    def __iter__(self):
        return iter(self.table)

    def __len__(self):
        return len(self.table)

    def keys(self):
        return self.table.keys()

    def values(self):
        return self.table.values()

    def items(self):
        return self.table.items()

    def __eq__(self, other):
        return self.table == other
''',
"pathlib": '''
import os


class PurePath:
    def __init__(self, *parts):
        texts = [part.path if isinstance(part, PurePath) else part for part in parts] or ["."]
        for text in texts:
            if not isinstance(text, str):
                raise TypeError("argument should be a str or an os.PathLike object")
        self.path = os.path.normpath(os.path.join(*texts)) if len(texts) > 1 else texts[0]

    def __str__(self):
        return self.path

    def __fspath__(self):
        return self.path

    def as_posix(self):
        return self.path

    def __eq__(self, other):
        return isinstance(other, PurePath) and self.path == other.path

    def __hash__(self):
        return hash(self.path)

    def __lt__(self, other):
        return self.path < other.path

    def __truediv__(self, part):
        return self.__class__(self, part)

    def __rtruediv__(self, part):
        return self.__class__(part, self)

    def joinpath(self, *parts):
        return self.__class__(self, *parts)

    @property
    def name(self):
        return os.path.basename(self.path)

    @property
    def suffix(self):
        return os.path.splitext(self.name)[1]

    @property
    def suffixes(self):
        return ["." + part for part in self.name.lstrip(".").split(".")[1:]]

    @property
    def stem(self):
        return os.path.splitext(self.name)[0]

    @property
    def parent(self):
        return self.__class__(os.path.dirname(self.path) or ".")

    @property
    def parts(self):
        return tuple(self.path.split("/"))

    def with_suffix(self, suffix):
        return self.parent / (self.stem + suffix)

    def with_name(self, name):
        return self.parent / name


PurePosixPath = PurePath


class Path(PurePath):
    @classmethod
    def home(cls):
        return cls(os.path.expanduser("~"))

    def expanduser(self):
        return self.__class__(os.path.expanduser(self.path))

    def exists(self):
        return os.path.exists(self.path)

    def is_file(self):
        return os.path.isfile(self.path)

    def is_dir(self):
        return os.path.isdir(self.path)

    def resolve(self):
        return self.__class__(os.path.abspath(self.path))

    absolute = resolve

    def open(self, mode="r", *args, **kw):
        return open(self.path, mode, *args, **kw)

    def read_text(self, encoding=None):
        with open(self.path, "r", encoding=encoding) as stream:
            return stream.read()

    def read_bytes(self):
        with open(self.path, "rb") as stream:
            return stream.read()

    def write_text(self, text, encoding=None):
        with open(self.path, "w", encoding=encoding) as stream:
            return stream.write(text)

    def write_bytes(self, data):
        with open(self.path, "wb") as stream:
            return stream.write(data)

    def unlink(self, missing_ok=False):
        if missing_ok and not os.path.exists(self.path):
            return None
        os.remove(self.path)

    def rename(self, target):
        os.rename(self.path, str(target))
        return self.__class__(target)

    replace = rename

    def mkdir(self, mode=511, parents=False, exist_ok=False):
        if exist_ok and os.path.isdir(self.path):
            return None
        if parents:
            os.makedirs(self.path, mode, exist_ok)
        else:
            os.mkdir(self.path)

    def iterdir(self):
        return iter([self / name for name in os.listdir(self.path)])

    def stat(self):
        return os.stat(self.path)


PosixPath = Path
''',
"typing": '''
class NamedTuple(tuple):
    def __new__(cls, *args, **kw):
        values, fields = list(args), list(cls.__annotations__)
        if len(args) > len(fields):
            raise TypeError("too many arguments")
        for field in fields[len(args):]:
            if field in kw:
                values.append(kw.pop(field))
            elif field in cls.__dict__:
                values.append(cls.__dict__[field])
            else:
                raise TypeError("missing argument " + field)
        if kw:
            raise TypeError("unexpected argument")
        return tuple.__new__(cls, values)

    def _asdict(self):
        return dict(zip(self.__class__.__annotations__, self))

    def _replace(self, **kw):
        return self.__class__(*[kw.get(field, value) for field, value in zip(self.__class__.__annotations__, self)])

    def __getattribute__(self, wanted):
        fields = list(object.__getattribute__(self, "__class__").__annotations__)
        if wanted in fields:
            return self[fields.index(wanted)]
        return object.__getattribute__(self, wanted)
''',
"dataclasses": '''
_ABSENT = object()


class _Field:
    def __init__(self, default, factory):
        self.default, self.factory = default, factory


def field(*, default=_ABSENT, default_factory=_ABSENT, init=True, repr=True, compare=True, hash=None):
    return _Field(default, default_factory)


def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, frozen=False, slots=False):
    if cls is None:
        return lambda cls: _data(cls, init, eq, order, frozen)
    return _data(cls, init, eq, order, frozen)


def _data(cls, init, eq, order, frozen):
    names = []
    for base in reversed(cls.__mro__):
        for name in base.__dict__.get("__annotations__", ()):
            if name not in names:
                names.append(name)
    defaults = {name: getattr(cls, name) for name in names if hasattr(cls, name)}

    def construct(self, *args, **kw):
        if len(args) > len(names):
            raise TypeError("too many arguments")
        given = dict(zip(names, args))
        for name in kw:
            if name not in names or name in given:
                raise TypeError("unexpected argument " + name)
        given.update(kw)
        for name in names:
            if name in given:
                value = given[name]
            elif name not in defaults:
                raise TypeError("missing argument " + name)
            elif isinstance(defaults[name], _Field):
                value = defaults[name].default if defaults[name].factory is _ABSENT else defaults[name].factory()
            else:
                value = defaults[name]
            object.__setattr__(self, name, value)
        if hasattr(self, "__post_init__"):
            self.__post_init__()

    def values(self):
        return tuple(getattr(self, name) for name in names)

    def equal(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        return values(self) == values(other)
    own = cls.__dict__
    if init and "__init__" not in own:
        cls.__init__ = construct
    if eq and "__eq__" not in own:
        cls.__eq__ = equal
        if frozen:
            cls.__hash__ = lambda self: hash(values(self))
        elif "__hash__" not in own or own["__hash__"] is None:
            cls.__hash__ = None
    if order:
        cls.__lt__ = lambda self, other: values(self) < values(other)
        cls.__le__ = lambda self, other: values(self) <= values(other)
        cls.__gt__ = lambda self, other: values(self) > values(other)
        cls.__ge__ = lambda self, other: values(self) >= values(other)
    if frozen:
        def refuse(self, name, value):
            raise AttributeError("cannot assign to field " + name)
        cls.__setattr__ = refuse
    return cls


def asdict(item):
    return dict(item.__dict__)


def replace(item, **kw):
    return item.__class__(**{**item.__dict__, **kw})
''',
"heapq": '''
def heappush(heap, item):
    heap.append(item)
    heap.sort()


def heappop(heap):
    return heap.pop(0)


def heapify(heap):
    heap.sort()


def nsmallest(n, items, key=None):
    return sorted(items, key=key)[:n]


def nlargest(n, items, key=None):
    return sorted(items, key=key, reverse=True)[:n]


def merge(*items, key=None, reverse=False):
    return iter(sorted([x for group in items for x in group], key=key, reverse=reverse))
''',
"operator": '''
def not_(a):
    return not a


def truth(a):
    return bool(a)


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def contains(a, b):
    return b in a


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def floordiv(a, b):
    return a // b


def truediv(a, b):
    return a / b


def mod(a, b):
    return a % b


def neg(a):
    return -a


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def concat(a, b):
    return a + b


def getitem(a, b):
    return a[b]


def setitem(a, b, c):
    a[b] = c


def delitem(a, b):
    del a[b]


def or_(a, b):
    return a | b


def and_(a, b):
    return a & b


def iadd(a, b):
    a += b
    return a
''',
}
