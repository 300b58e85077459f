"""C27: inherited parameters and job selection."""
import sys
import io
import contextlib
import argparse
import logging
from vh import st, given, assume, check, rec, rule
from spectrocrunch.pipelines import parameters, batch, run

rule(
    "Generated histories (up to 25 operations: add, insert, move and remove nodes, assign values, nested values and "
    "dictionaries, update, delete, reset) on trees of parameter nodes, compared with a reference model after each "
    "operation; generated job lists and selections. Non-trivial: a tree with an ancestor and at least 4 operations or "
    "a selection of jobs."
)
B = st.booleans()
SCALARS = ["a", "b", "c", "d"]
SUBS = ["s", "t"]
VALUE = st.one_of(st.integers(0, 3), st.sampled_from(["x", "y", None, 1.5, True, False, 2.0]))


class Sub(dict):
    """sub-node"""


class M(object):
    """reference node"""

    def __init__(self, name):
        self.name, self.parent, self.children, self.local = name, None, [], Sub()
        self.last = None  # signature when reset

    def up(self):
        n = self
        while n is not None:
            yield n
            n = n.parent

    def down(self):
        yield self
        for c in self.children:
            yield from c.down()

    def newparent(self, p):
        if self.parent is not None:
            self.parent.children.remove(self)
        self.parent = p
        if p is not None:
            p.children.append(self)

    def setparent(self, p):
        if p is self or p is self.parent:
            return
        if p is not None and p in list(self.down()):
            p.newparent(self.parent)
        self.newparent(p)


def localmap(node, path):
    """map of the node itself at this depth"""
    m = node.local
    for k in path:
        m = m.get(k)
        if not isinstance(m, Sub):
            return None
    return m


def chain(node, path):
    """maps in order of inheritance"""
    for n in node.up():
        m = localmap(n, path)
        if m is not None:
            yield n, m


def keys(node, path):
    out = []
    for _, m in chain(node, path):
        out.extend(k for k in m if k not in out)
    return out


def owner(node, path, key):
    for n, m in chain(node, path):
        if key in m:
            return n
    return None


def get(node, path, key):
    """resolved value (scalar or nested dictionary)"""
    n = owner(node, path, key)
    v = localmap(n, path)[key]
    if isinstance(v, Sub):
        return resolved(n, path + (key,))
    return v


def resolved(node, path=()):
    return {k: get(node, path, k) for k in keys(node, path)}


def same(a, b):
    """equal according to the hash: numbers by value, nothing else mixed; an empty sub-node is not an empty dictionary"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
        return bool(a) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return a == b


def canon(v):
    if isinstance(v, dict):
        return "sub", frozenset((k, canon(x)) for k, x in v.items())
    if v is None or isinstance(v, str):
        return type(v).__name__, v
    return "number", float(v)


def signature(node):
    """state of this node and of its ancestors"""
    out = []
    for n in node.up():
        out.append(frozenset((k, canon(resolved(n, (k,)) if isinstance(v, Sub) else v)) for k, v in n.local.items()))
    return tuple(out)


def assign(node, path, key, value):
    o = owner(node, path, key)
    if o is not None and same(get(node, path, key), value):
        return
    m = localmap(node, path)
    if isinstance(value, dict):
        if key not in m:
            m[key] = Sub()
        for k, v in value.items():
            assign(node, path + (key,), k, v)
    else:
        m[key] = value


def delete(node, path, key, local=True):
    if local:
        m = localmap(node, path)
        if m is not None:
            m.pop(key, None)
    for c in node.children:
        delete(c, path, key)


def plain(x):
    """real node to dictionary"""
    return {k: plain(v) if isinstance(v, parameters.BaseNode) else v for k, v in x.items()}


def dump(x):
    """real node without inheritance"""
    return {k: dump(v) if isinstance(v, parameters.BaseNode) else v for k, v in x.todict(full=False).items()}


def exact(a, b):
    """equal, also in type"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(exact(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


@st.composite
def tree_values(draw, depth=0):
    """content of a sub-node"""
    d = {}
    for k in draw(st.lists(st.sampled_from(SCALARS), min_size=1, max_size=3, unique=True)):
        d[k] = draw(VALUE)
    if depth < 2 and draw(st.integers(0, 2)) == 0:
        d[draw(st.sampled_from(SUBS))] = draw(tree_values(depth + 1))
    return d


def real_at(real, node, path):
    x = real[node]
    for k in path:
        x = x[k]
    return x


@check(quick=500, thorough=12000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def tree(data):
    draw = data.draw
    nodes = [M("n0")]
    real = {nodes[0]: parameters.Node(name="n0")}
    hist = ["root"]

    def new(r, name=None):
        m = M(name or r.name)
        nodes.append(m)
        real[m] = r
        return m

    def compare():
        inv = {id(r): m for m, r in real.items()}
        for m, r in real.items():
            p = r.parent
            assert (p is None) == (m.parent is None) and (p is None or inv[id(p)] is m.parent), ("parent", m.name, hist)
            assert [id(real[c]) for c in m.children] == [id(c) for c in r.children], ("children", m.name, hist)
            assert r.root is real[list(m.up())[-1]]
            before = hash(r), dump(r)
            want = resolved(m)
            got = plain(r)
            assert exact(got, want), (m.name, got, want, hist)
            assert plain(r.todict()).keys() == want.keys() and len(r) == len(want)
            assert exact(dump(r), dict(m.local)), ("local", m.name, dump(r), m.local, hist)
            for k in SCALARS + SUBS:
                assert (k in r) == (k in want)
                assert r.islocalkey(k) == (k in m.local)
                assert r.isinheritedkey(k) == (m.parent is not None and k in resolved(m.parent)), (m.name, k, hist)
                if k in want and k in SCALARS:
                    assert exact(r[k], want[k])
                elif k not in want:
                    assert r.get(k, "default") == "default"
                    try:
                        r[k]
                    except KeyError:
                        pass
                    else:
                        raise AssertionError("missing key", k)
            for k, v in r.items(annotated=True):
                assert k.original in want and k.localcontext == (k.original in m.local) and k.inherited == (not k.localcontext)
            assert r.changed == (m.last is None or m.last != signature(m)), ("changed", m.name, r.changed, hist)
            assert (hash(r), dump(r)) == before
        for m, r in real.items():
            # nothing created by reading
            assert exact(dump(r), dict(m.local)), ("reading changes", m.name, hist)
        repr(real[nodes[0]]), real[nodes[0]].tree()

    nops = draw(st.integers(3, 25))
    for i in range(nops):
        kind = draw(st.sampled_from(["branch", "branch", "set", "set", "set", "dict", "dict", "nested", "nested", "update", "del", "delnested",
                                     "before", "after", "move", "remove", "reset", "recursive", "override", "empty", "reorder"]))
        m = draw(st.sampled_from(nodes[-4:] if draw(B) else nodes))
        r = real[m]
        if kind == "branch":
            if len(nodes) > 8:
                continue
            hist.append(("branch", m.name))
            new(r.branch(name="n%d" % len(nodes))).newparent(m)
        elif kind in ("before", "after"):
            if len(nodes) > 8:
                continue
            hist.append((kind, m.name))
            node, other = getattr(r, "insert_" + kind)(name="n%d" % len(nodes))
            assert other is None
            n = new(node)
            if kind == "before":
                p = m.parent
                m.newparent(n)
                n.newparent(p)
            else:
                for c in list(m.children):
                    c.newparent(n)
                n.newparent(m)
        elif kind == "move":
            p = draw(st.sampled_from(nodes + [None]))
            hist.append(("move", m.name, p and p.name))
            r.parent = p and real[p]
            m.setparent(p)
        elif kind in ("remove", "reorder"):
            if kind == "remove" and draw(B):
                hist.append(("remove branch", m.name))
                assert r.remove(single=False) is None
                m.newparent(None)
            elif len(nodes) <= 8:
                target = draw(st.sampled_from(nodes))
                where = draw(st.sampled_from(["before", "after"]))
                if kind == "reorder" and (target is m or (where == "before" and m is target.parent) or (where == "after" and m.parent is target)):
                    hist.append(("nothing", m.name, target.name))
                    assert getattr(real[target], "insert_" + where)(node=r, single=True) == (r, None)
                else:
                    if kind == "remove":
                        hist.append(("remove", m.name))
                        extra = r.remove()
                    else:
                        hist.append(("move single", m.name, where, target.name))
                        back, extra = getattr(real[target], "insert_" + where)(node=r, single=True)
                        assert back is r
                    assert (extra is not None) == (m.parent is None), hist
                    if m.parent is None:
                        m.newparent(new(extra, "x%d" % len(nodes)))
                    for c in list(m.children):
                        c.newparent(m.parent)
                    m.newparent(None)
                    if kind == "reorder":
                        if where == "before":
                            p = target.parent
                            target.newparent(m)
                            m.newparent(p)
                        else:
                            for c in list(target.children):
                                c.newparent(m)
                            m.newparent(target)
        elif kind == "set":
            k, v = draw(st.sampled_from(SCALARS)), draw(VALUE)
            hist.append(("set", m.name, k, v))
            r[k] = v
            assign(m, (), k, v)
        elif kind == "dict":
            k, v = draw(st.sampled_from(SUBS)), draw(tree_values())
            hist.append(("set", m.name, k, v))
            r[k] = v
            assign(m, (), k, v)
        elif kind == "empty":
            k = draw(st.sampled_from(SUBS))
            hist.append(("set", m.name, k, {}))
            r[k] = {}
            assign(m, (), k, {})
        elif kind in ("nested", "delnested"):
            # sub-nodes are changed where they are defined
            path, n = (), m
            for _ in range(draw(st.integers(1, 3))):
                cand = [k for k in SUBS if owner(n, path, k) is not None]
                if not cand:
                    break
                k = draw(st.sampled_from(cand))
                n = owner(n, path, k)
                path += (k,)
            if not path:
                continue
            if kind == "nested":
                k, v = draw(st.sampled_from(SCALARS)), draw(VALUE)
                if draw(st.integers(0, 3)) == 0:
                    k, v = draw(st.sampled_from(SUBS)), draw(tree_values(1))
                hist.append(("set", m.name, path, k, v))
                real_at(real, m, path)[k] = v
                assign(n, path, k, v)
            else:
                k = draw(st.sampled_from(SCALARS))
                hist.append(("del", m.name, path, k))
                del real_at(real, m, path)[k]
                delete(n, path, k)
        elif kind == "del":
            k = draw(st.sampled_from(SCALARS + SUBS))
            how = draw(st.sampled_from(["all", "local"]))
            hist.append(("del", m.name, k, how))
            if how == "all":
                del r[k]
                delete(m, (), k)
            else:
                r.delete_local(k)
                m.local.pop(k, None)
        elif kind in ("update", "recursive", "override"):
            v = draw(st.dictionaries(st.sampled_from(SCALARS), VALUE, min_size=1, max_size=3))
            hist.append((kind, m.name, v))
            if kind == "update":
                r.update(v)
            elif kind == "recursive":
                if draw(B):
                    r.update_recursive(v)
                else:
                    r.fromdict(v, recursive=True)
            else:
                r.fromdict(v, override=False)
                v = {k: x for k, x in v.items() if m.parent is None or k not in resolved(m.parent)}
            for k, x in v.items():
                assign(m, (), k, x)
                if kind == "recursive":
                    delete(m, (), k, local=False)
        elif kind == "reset":
            rc, ch = draw(B), draw(st.integers(0, 3)) == 0
            hist.append(("reset", m.name, rc, ch))
            r.reset_state(changed=ch, recursive=rc)
            for x in m.down() if rc else [m]:
                x.last = None if ch else signature(x)
        rec.current = repr(hist)
        rec.label(kind)
        compare()
    rec.current = repr(hist)
    rec.case(repr(hist), nontrivial=len(hist) > 4 and any(m.parent for m in nodes))


@contextlib.contextmanager
def argv(args):
    old = sys.argv
    sys.argv = ["script.py"] + args
    try:
        yield
    finally:
        sys.argv = old


@check(quick=500, thorough=8000, shards={"quick": 2, "thorough": 4})
@given(st.data())
def jobs(data):
    """job selection"""
    draw = data.draw
    n = draw(st.sampled_from([1, 3, 6, 0, 12]))
    argsof = [tuple(draw(st.lists(st.integers(0, 9), max_size=2))) for _ in range(n)]
    kwargsof = [{"k": draw(st.integers(0, 9))} if draw(B) else {} for _ in range(n)]
    mode = draw(st.sampled_from(["all", "list", "a", "b", "ab", "list a", "list ab"]))
    numbers = draw(st.lists(st.integers(0, n + 2), min_size=1, max_size=4, unique=True)) if "list" in mode else []
    a = draw(st.integers(1, n + 2)) if "a" in mode.split()[-1] and mode != "all" else 0
    b = draw(st.integers(1, n + 2)) if "b" in mode else 0
    info = draw(st.sampled_from([""] * 9 + ["-n", "-l", "--njobs", "--ljobs"]))
    args = []
    if numbers:
        args += [draw(st.sampled_from(["-j", "--jobs"]))] + [str(i) for i in numbers]
    if a:
        args += [draw(st.sampled_from(["-a", "--ajob"])), str(a)]
    if b:
        args += [draw(st.sampled_from(["-b", "--bjob"])), str(b)]
    if info:
        args.append(info)
    if draw(B):
        args = ["--unknown"] + args
    rec.current = repr((n, args))
    rec.case((n, args), nontrivial=n > 1 and bool(args))
    done = []

    def func(i):
        return lambda *x, **kw: done.append((i, x, kw))

    order = []  # jobs in the order of the list
    out = io.StringIO()
    with argv(args), contextlib.redirect_stdout(out):
        with batch.context() as lst:
            for i in range(n):
                item = ("job%d" % i, func(i), argsof[i], kwargsof[i])
                how = draw(st.sampled_from(["append", "append", "insert", "replace"]))
                if how == "insert":
                    pos = draw(st.integers(0, len(lst)))
                    lst.insert(pos, item)
                    order.insert(pos, i)
                elif how == "replace":
                    lst.append(("tmp", func(-1), (), {}))
                    lst[-1] = item
                    order.append(i)
                else:
                    lst.append(item)
                    order.append(i)
            if n and draw(st.integers(0, 4)) == 0:
                k = draw(st.integers(0, n - 1))
                del lst[k]
                del order[k]
            assert len(lst) == len(order) and [str(j) for j in lst] == ["job%d" % i for i in order]
            assert not done, "executed before the end"
    m = len(order)
    if info:
        assert not done
        if "n" in info.replace("--", "-")[1]:
            assert out.getvalue().strip() == str(m)
        else:
            lines = [x for x in out.getvalue().split("\n") if x]
            assert [(int(x.split(".")[0]), x.split(". ")[1]) for x in lines] == [(k + 1, "job%d" % i) for k, i in enumerate(order)]
        rec.label("information")
        return
    if numbers or a or b:
        sel = list(numbers)
        if a and b:
            sel += list(range(min(a, b), max(a, b) + 1))
        elif a:
            sel += list(range(a, m + 1))
        elif b:
            sel += list(range(1, b + 1))
        rec.label(mode)
    else:
        sel = list(range(1, m + 1))
    want = [order[k - 1] for k in sel if 1 <= k <= m]
    assert done == [(i, argsof[i], kwargsof[i]) for i in want], (done, want)


@check(quick=200, thorough=2000, shards={"quick": 1, "thorough": 2})
@given(st.data())
def runner(data):
    """failing jobs and tasks"""
    draw = data.draw
    n = draw(st.integers(1, 8))
    ok = [draw(st.integers(0, 5)) > 0 for _ in range(n)]
    rec.case(ok, nontrivial=n > 1)
    rec.current = repr(ok)
    ran = []

    class T(object):
        def __init__(self, i):
            self.i, self.done = i, False

        def run(self):
            assert not self.done
            ran.append(self.i)
            self.done = ok[self.i]

    first = ok.index(False) + 1 if False in ok else n
    assert bool(run.run_sequential([T(i) for i in range(n)], name=draw(st.sampled_from([None, "x"])))) == all(ok)
    assert ran == list(range(first)), (ran, ok)
    # queue
    puts = []

    class Q(object):
        def put(self, x):
            puts.append(x)

    ran.clear()
    for i in range(n):
        run.run_task(T(i), Q())
    assert puts == ok and ran == list(range(n))
    # invalid jobs are refused when added, nothing runs when the description of the jobs fails
    done = []
    lst = batch.Jobs(*[("j%d" % i, lambda i=i: done.append(i), (), {}) for i in range(n)])
    for bad in [("x", 1, (), {}), ("x", print, 1, {}), ("x", print, (), [])]:
        try:
            lst.append(bad)
        except TypeError:
            pass
        else:
            raise AssertionError("invalid job", bad)
    assert len(lst) == n
    for j in lst:
        j()
    assert done == list(range(n))
    done.clear()
    with argv([]):
        try:
            with batch.context() as lst:
                lst.append(("j", lambda: done.append(0), (), {}))
                raise ZeroDivisionError
        except ZeroDivisionError:
            pass
    assert not done
    # a failing job ends the batch
    k = draw(st.integers(0, n - 1))

    def fail():
        raise ZeroDivisionError

    with argv([]):
        try:
            with batch.context() as lst:
                for i in range(n):
                    lst.append(("j%d" % i, fail if i == k else (lambda i=i: done.append(i)), (), {}))
        except ZeroDivisionError:
            pass
        else:
            raise AssertionError("error hidden")
    assert done == list(range(k))
    assert batch.jobname("f", ["a", 1], more=False) == 'f("a", 1)' and batch.jobname("f", ["a"]) == 'f("a", ...)'
