"""Compare the analyser's reading of Python with CPython's on concrete snippets (a test of the analyser, not of OpyenXes).

Each snippet binds `out` to a value made of lists, tuples, dicts, strings, numbers, booleans and None.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
from sa.interp import Interp, PyRaise, Undecided, Obj  # noqa: E402
from sa.terms import show  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))


def plain(I, v):
    if isinstance(v, Obj):
        b = I.base_of(v)
        if b == "dict":
            return {plain(I, k): plain(I, x) for k, x in v.payload}
        if b == "tuple":
            return tuple(plain(I, x) for x in v.payload)
        if b in ("list",):
            return [plain(I, x) for x in v.payload]
        if b == "set":
            return set(plain(I, x[0] if isinstance(x, (list, tuple)) else x) for x in v.payload)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    return "?" + show(v)


def main():
    text = open(os.path.join(HERE, "snippets.py")).read()
    bad = und = n = 0
    pick = sys.argv[1:]
    for part in text.split("\n# ---")[1:]:
        title, _, code = part.partition("\n")
        title = title.strip()
        if pick and not any(p in title for p in pick):
            continue
        n += 1
        g = {"__name__": "client"}
        try:
            exec(compile(code, title, "exec"), g)
            want = g["out"]
        except Exception as e:
            want = "raises " + type(e).__name__
        I = Interp("/repo/src")
        try:
            got = plain(I, I.client(code)["out"])
        except PyRaise as e:
            got = "raises " + e.value.cls.name
        except Undecided as e:
            got = None
            und += 1
            print("UNDECIDED", title, ":", e.why, e.loc)
            continue
        if got != want or repr(type(got)) != repr(type(want)) and not isinstance(want, tuple):
            bad += 1
            print("DIFFERS", title, "\n   CPython ", want, "\n   analyser", got)
    print("%d snippets, %d differ, %d undecided" % (n, bad, und))


main()
