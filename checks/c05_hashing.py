"""C05: content fingerprints."""
import os
import sys
import copy
import pickle
import atexit
import struct
import subprocess
import numpy as np
from vh import st, given, assume, check, rec, rule, REPO
from spectrocrunch.utils import hashing
from lib_trees import build

rule(
    "Nested trees (mappings, ordered mappings, sequences, sets, text, bytes, numbers of all "
    "types, None, quantities, arrays, lookup tables). Equal variants are produced by "
    "permuting dictionaries and sets and changing number/text types; different variants by "
    "changing exactly one leaf, key, length or order. Non-trivial: nested, more than 2 leaves."
)

# numbers for which every numeric type holds exactly the same value
NUM = st.one_of(
    st.sampled_from([0, 1]),
    st.integers(-300, 300),
    st.integers(-4000, 4000).map(lambda i: i / 8.0),
    st.sampled_from([2**40, -(2**53), 1e300, float("inf"), 0.1, 1.0 / 3, 1e-7]),
)
TEXT = st.one_of(st.text(max_size=5), st.sampled_from(["", "1", "1.0", "None", "True", "abc", "[1]"]))
LEAF = st.one_of(
    NUM.map(lambda v: ("num", v)),
    TEXT.map(lambda v: ("text", v)),
    st.just(("none", None)),
    st.tuples(NUM, st.sampled_from(["mm", "keV", "s", "dimensionless"])).map(lambda v: ("quantity", v)),
    st.lists(st.integers(-9, 9), min_size=1, max_size=4).map(lambda v: ("array", v)),
    st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), min_size=1, max_size=3).map(
        lambda v: ("lut", v)
    ),
)


def hashable_leaf():
    return st.one_of(NUM.map(lambda v: ("num", v)), TEXT.map(lambda v: ("text", v)))


def uniq(lst):
    out, seen = [], set()
    for kind, v in lst:
        if v not in seen:
            seen.add(v)
            out.append((kind, v))
    return out


def compound(children):
    return st.one_of(
        st.lists(children, max_size=4).map(lambda v: ("list", v)),
        st.lists(hashable_leaf(), max_size=4).map(lambda v: ("set", uniq(v))),
        st.lists(st.tuples(hashable_leaf(), children), max_size=4).map(
            lambda v: ("dict", uniqkeys(v))
        ),
        st.lists(st.tuples(hashable_leaf(), children), max_size=3).map(
            lambda v: ("odict", uniqkeys(v))
        ),
    )


def uniqkeys(items):
    out, seen = [], set()
    for k, v in items:
        if k[1] not in seen:
            seen.add(k[1])
            out.append((k, v))
    return out


TREE = st.recursive(LEAF, compound, max_leaves=12)
RTREE = compound(TREE)


def leaves(t):
    kind, v = t
    if kind in ("list", "set"):
        return sum(leaves(c) for c in v)
    if kind in ("dict", "odict"):
        return sum(leaves(c) for _, c in v) + len(v)
    return 1


def nontrivial(t):
    return t[0] in ("list", "set", "dict", "odict") and leaves(t) > 2


@check(quick=2500, thorough=40000, shards={"quick": 3, "thorough": 8})
@given(RTREE, st.data())
def invariant(t, data):
    rec.case(t, nontrivial=nontrivial(t))
    a = build(t)

    def choose(seq):
        return data.draw(st.sampled_from(seq))

    def perm(lst):
        return data.draw(st.permutations(lst))

    b = build(t, choose, perm)
    ha = hashing.calchash(a)
    assert isinstance(ha, bytes) and len(ha) == 32
    assert ha == hashing.calchash(a)
    assert ha == hashing.calchash(b), (a, b)
    assert hashing.hashequal(a, b)
    assert ha == hashing.calchash(copy.deepcopy(a))


def paths(t, prefix=()):
    """All single modifications of a tree: (path, kind of change)."""
    kind, v = t
    yield prefix, kind
    if kind == "list":
        for i, c in enumerate(v):
            for p in paths(c, prefix + (i,)):
                yield p
    elif kind in ("dict", "odict"):
        for i, (k, c) in enumerate(v):
            for p in paths(c, prefix + (i,)):
                yield p


def modify(t, path, func):
    if not path:
        return func(t)
    kind, v = t
    v = list(v)
    i = path[0]
    if kind == "list":
        v[i] = modify(v[i], path[1:], func)
    else:
        v[i] = (v[i][0], modify(v[i][1], path[1:], func))
    return kind, v


@check(quick=2500, thorough=40000, shards={"quick": 3, "thorough": 8})
@given(RTREE, st.data())
def sensitive(t, data):
    path, kind = data.draw(st.sampled_from(list(paths(t))))

    def change(sub):
        kind, v = sub
        if kind == "num":
            w = data.draw(st.one_of(NUM, st.just(v + 1), st.just(-v), st.just(v + 0.125)))
            assume(w != v)
            return kind, w
        if kind == "text":
            w = data.draw(st.one_of(TEXT, st.just(v + "x"), st.just(v + " "), st.just(v.swapcase())))
            assume(w.encode("utf8") != v.encode("utf8"))
            return kind, w
        if kind == "none":
            return data.draw(st.sampled_from([("num", 0), ("text", ""), ("text", "None")]))
        if kind == "quantity":
            m, u = v
            if data.draw(st.booleans()):
                return kind, (m, "g")
            w = data.draw(NUM)
            assume(w != m)
            return kind, (w, u)
        if kind == "array":
            w = list(v)
            op = data.draw(st.sampled_from(["elem", "append", "pop", "swap"]))
            if op == "elem":
                w[data.draw(st.integers(0, len(w) - 1))] += data.draw(st.integers(1, 5))
            elif op == "append":
                w.append(0)
            elif op == "pop":
                w.pop()
                assume(w)
            else:
                w = data.draw(st.permutations(w))
            assume(w != v)
            return kind, w
        if kind == "lut":
            return kind, v + [(20, 1)]
        if kind == "list":
            op = data.draw(st.sampled_from(["append", "pop", "swap", "wrap", "regroup"]))
            w = list(v)
            if op == "regroup":
                assume(len(w) > 1)
                i = data.draw(st.integers(1, len(w) - 1))
                w = data.draw(
                    st.sampled_from(
                        [
                            [("list", w[:i]), ("list", w[i:])],
                            [("list", w[:i])] + w[i:],
                            w[:i] + [("list", w[i:])],
                        ]
                    )
                )
            elif op == "append":
                w.append(data.draw(LEAF))
            elif op == "pop":
                assume(len(w) > 1)
                w.pop(data.draw(st.integers(0, len(w) - 1)))
            elif op == "swap":
                w = list(data.draw(st.permutations(w)))
            else:
                w = [("list", w)] if len(w) > 0 else w
            assume(not same(("list", w), ("list", v)))
            return kind, w
        if kind == "set":
            w = uniq(list(v) + [data.draw(hashable_leaf())])
            assume(len(w) != len(v))
            return kind, w
        op = data.draw(st.sampled_from(["key", "add", "pop", "values", "pair"]))
        w = list(v)
        if op == "values":
            # same keys, same values, other pairing
            values = data.draw(st.permutations([c for _, c in w]))
            w = [(k, c) for (k, _), c in zip(w, values)]
            assume(any(not same(a[1], b[1]) for a, b in zip(w, v)))
        elif op == "pair":
            # a key and its value exchanged
            i = data.draw(st.sampled_from([i for i, (k, c) in enumerate(w) if c[0] in ("num", "text")] or [-1]))
            assume(i >= 0)
            k, c = w[i]
            assume(all(not same(c, q[0]) for q in w))
            w[i] = (c, k)
        elif op == "key":
            assume(w)
            i = data.draw(st.integers(0, len(w) - 1))
            k = data.draw(hashable_leaf())
            assume(all(not same(k, q[0]) for q in w))
            w[i] = (k, w[i][1])
        elif op == "add":
            k = data.draw(hashable_leaf())
            assume(all(not same(k, q[0]) for q in w))
            w.append((k, data.draw(LEAF)))
        else:
            assume(w)
            w.pop(data.draw(st.integers(0, len(w) - 1)))
        return kind, w

    t2 = modify(t, path, change)
    rec.case((t, path, t2), nontrivial=nontrivial(t))
    rec.label(kind)
    a, b = build(t), build(t2)
    assert hashing.calchash(a) != hashing.calchash(b), (a, b)
    assert not hashing.hashequal(a, b)


def same(a, b):
    """Same content (arrays of numbers are sequences, {} has its own class)."""
    return canon(a) == canon(b)


def canon(t):
    kind, v = t
    if kind == "num":
        return ("num", v)
    if kind == "array":
        return ("list", tuple(("num", x) for x in v))
    if kind == "list":
        return ("list", tuple(canon(c) for c in v))
    if kind == "lut":
        d = {}
        for x, y in v:
            d[x] = d.get(x, 0) + y
        return ("lut", tuple(sorted(d.items())))
    if kind == "set":
        return ("list", tuple(sorted(map(repr, (canon(c) for c in v))))) if False else (
            "set",
            frozenset(canon(c) for c in v),
        )
    if kind in ("dict", "odict"):
        return (kind, tuple((canon(k), canon(c)) for k, c in v))
    return (kind, v)


SCALAR = st.one_of(NUM.map(lambda v: ("num", v)), st.sampled_from("abc").map(lambda v: ("text", v)))


@check(quick=600, thorough=10000, shards={"quick": 1, "thorough": 4})
@given(
    st.lists(st.tuples(st.sampled_from("abcdefgh").map(lambda v: ("text", v)), SCALAR), min_size=2, max_size=6).map(uniqkeys),
    st.sampled_from(["dict", "odict"]),
    st.lists(st.sampled_from(["list", "dict"]), max_size=3),
    st.data(),
)
def pairing(items, kind, wrap, data):
    """The same keys and the same values, paired differently."""
    values = data.draw(st.permutations([c for _, c in items]))
    other = [(k, c) for (k, _), c in zip(items, values)]
    different = any(not same(a[1], b[1]) for a, b in zip(items, other))
    rec.case((items, other, kind, wrap), nontrivial=different)

    def nest(t):
        for w in wrap:
            t = ("list", [t]) if w == "list" else ("dict", [(("text", "x"), t)])
        return t

    ha = hashing.calchash(build(nest((kind, items))))
    hb = hashing.calchash(build(nest((kind, other))))
    assert (ha != hb) == different, (items, other)


SERVER = r"""
import sys, pickle, struct, logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, sys.argv[1])
from spectrocrunch.utils import hashing
from lib_trees import build
inp, out = sys.stdin.buffer, sys.stdout.buffer
while True:
    h = inp.read(8)
    if len(h) < 8:
        break
    n, = struct.unpack("q", h)
    o = pickle.loads(inp.read(n))
    out.write(hashing.calchash(build(o))); out.flush()
"""
_servers = {}


def remote(seed, obj):
    if seed not in _servers:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.Popen(
            [sys.executable, "-B", "-W", "ignore", "-c", SERVER, os.path.dirname(os.path.abspath(__file__))],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
        )
        _servers[seed] = p
    p = _servers[seed]
    b = pickle.dumps(obj)
    p.stdin.write(struct.pack("q", len(b)) + b)
    p.stdin.flush()
    return p.stdout.read(32)


@check(quick=600, thorough=8000, shards={"quick": 2, "thorough": 8})
@given(RTREE, st.sampled_from([1, 77]))
def other_process(t, seed):
    """The same content in a process with another hash randomization."""
    rec.case((t, seed), nontrivial=nontrivial(t))
    a = build(t)
    assert hashing.calchash(a) == remote(seed, t)


@check(quick=300, thorough=3000, shards={"quick": 1, "thorough": 2})
@given(st.lists(RTREE, min_size=1, max_size=4))
def merge(ts):
    objs = [build(t) for t in ts]
    hs = [hashing.calchash(o) for o in objs]
    rec.case(ts, nontrivial=len(ts) > 1)
    m = hashing.mergehash(*hs)
    assert m == hashing.mergehash(*hs)
    if len(hs) > 1:
        for i in range(len(hs)):
            h2 = list(hs)
            h2[i] = hashing.calchash(["changed", i])
            assert hashing.mergehash(*h2) != m


@check(quick=300, thorough=3000, shards={"quick": 1, "thorough": 2})
@given(st.integers(-300, 300), st.sampled_from([complex, np.complex128, np.complex64]))
def complex_numbers(i, tp):
    rec.case((i, tp.__name__))
    assert hashing.calchash(tp(i)) == hashing.calchash(i)
    assert hashing.calchash(tp(i + 1j)) != hashing.calchash(i)
    assert hashing.calchash(tp(i + 1j)) != hashing.calchash(tp(i + 2j))
