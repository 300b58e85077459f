"""C13: tree of HDF5 files against a simple model."""
import os
import copy
import shutil
import posixpath
import tempfile
import h5py
import numpy as np
from vh import st, given, assume, check, rec, rule
from lib_contained import contained
from spectrocrunch.io import fs, h5fs

rule(
    "Sequences of up to 14 operations (mkdir, mkfile, overwrite, attributes, soft, hard and external "
    "links, copy, move, rename, remove) on two HDF5 files with at most 3 levels and few names, so "
    "that operations collide; both files are compared with the model after every operation. "
    "Non-trivial: at least 3 operations changed a file. Operations that would create link cycles are "
    "skipped. Values: numbers, arrays, text, lists of text."
)

NAMES = ["a", "b", "c"]
B = st.booleans()


class Refused(Exception):
    pass


class Skip(Exception):
    pass


class Group(object):
    def __init__(self):
        self.nodes = {}
        self.attrs = {}


class Data(object):
    def __init__(self, value):
        self.value = value
        self.attrs = {}


class Soft(object):
    def __init__(self, text):
        self.text = text


class Ext(object):
    def __init__(self, path):
        self.path = path


LINKS = (Soft, Ext)


def txt(names):
    return "/" + "/".join(names)


class Model(object):
    """A path is (file index,) + names"""

    def __init__(self):
        self.files = [None, None]

    def get(self, path, follow=True, _n=0):
        if _n > 20:
            raise Skip("link cycle")
        node = self.files[path[0]]
        for i in range(1, len(path)):
            if not isinstance(node, Group) or path[i] not in node.nodes:
                return None
            child = node.nodes[path[i]]
            if isinstance(child, LINKS) and (follow or i < len(path) - 1):
                child = self.get(self.target(path[: i + 1], _n), True, _n + 1)
                if child is None:
                    return None
            node = child
        return node

    def real(self, path, _n=0):
        if _n > 20:
            raise Skip("link cycle")
        out = path[:1]
        for name in path[1:]:
            out = out + (name,)
            if isinstance(self.get(out, False, _n + 1), LINKS):
                out = self.real(self.target(out, _n + 1), _n + 1)
        return out

    def target(self, path, _n=0):
        node = self.get(path, False, _n + 1)
        if isinstance(node, Ext):
            return node.path
        base = self.real(path[:-1], _n + 1)
        p = posixpath.normpath(posixpath.join(txt(base[1:]), node.text))
        return base[:1] + tuple(x for x in p.split("/") if x)

    def walk(self):
        for i in range(2):
            if self.files[i] is not None:
                for x in self._walk(self.files[i], (i,)):
                    yield x

    def _walk(self, node, path):
        yield path, node
        if isinstance(node, Group):
            for name, child in sorted(node.nodes.items()):
                for x in self._walk(child, path + (name,)):
                    yield x

    def assert_sane(self):
        for p, n in self.walk():
            if isinstance(n, LINKS):
                self.get(p)
                t = self.target(p)
                if any(self.real(t[:i])[0] != t[0] for i in range(1, len(t))):
                    raise Skip("link to a path through an external link")
                for t in (self.target(p), self.real(p)):
                    if p[: len(t)] == t:
                        raise Skip("link to parent")

    def canonical(self, path):
        if self.real(path[:-1]) != path[:-1]:
            raise Skip("path through a link")

    def samefile(self, path):
        if self.real(path)[0] != path[0]:
            raise Skip("through external link")

    def create(self, path):
        if self.files[path[0]] is None:
            self.files[path[0]] = Group()

    def setnode(self, path, node):
        parent = self.get(path[:-1])
        if not isinstance(parent, Group):
            raise Refused("no parent")
        parent.nodes[path[-1]] = node

    def unlink(self, path):
        del self.get(path[:-1]).nodes[path[-1]]

    # ---------------------------------------------------- operations
    def mkdir(self, path, recursive, force):
        self.samefile(path)
        self.create(path)
        node = self.get(path)
        if node is not None:
            if force and isinstance(node, Group):
                return
            raise Refused("a file" if force else "exists")
        for i in range(2, len(path) + 1):
            p = path[:i]
            n = self.get(p)
            if n is None:
                if self.get(p, follow=False) is not None:
                    raise Skip("broken link")
                if not recursive and i < len(path):
                    raise Refused("no parent group")
                self.get(p[:-1]).nodes[p[-1]] = Group()
            elif not isinstance(n, Group):
                raise Refused("dataset in path")

    def mkfile(self, path, value, attrs, mode):
        self.samefile(path)
        if self.files[path[0]] is None and mode is not None and mode.startswith("r"):
            raise Skip("file mode")
        self.create(path)
        node = self.get(path)
        if node is not None:
            if mode == "w":
                if isinstance(node, Group):
                    raise Refused("directory")
                if isinstance(self.get(path, follow=False), LINKS):
                    raise Skip("overwrite through a link")
            else:
                raise Refused("exists")
        else:
            if self.get(path, follow=False) is not None:
                raise Skip("broken link")
            if mode is not None and mode.startswith("r"):
                raise Refused("missing")
            if not isinstance(self.get(path[:-1]), Group):
                raise Refused("no parent")
        node = Data(value)
        node.attrs.update(attrs)
        self.setnode(path, node)

    def read(self, path):
        node = self.get(path)
        if not isinstance(node, Data):
            raise Refused("not a dataset")
        return node.value

    def update(self, path, attrs):
        node = self.get(path)
        if node is None:
            if self.get(path, follow=False) is not None:
                raise Skip("broken link")
            raise Skip("creates dataset")
        self.samefile(path)
        node.attrs.update(attrs)

    def pop(self, path, key, default):
        node = self.get(path)
        if node is None:
            return default
        self.samefile(path)
        return node.attrs.pop(key, default)

    def link(self, path, dest, soft):
        self.canonical(path)
        self.create(path)
        if not isinstance(self.get(path[:-1]), Group):
            raise Refused("no parent")
        if len(path) < 2 or self.get(path, follow=False) is not None:
            raise Refused("link exists")
        if path[0] != dest[0]:
            self.setnode(path, Ext(dest))
        elif soft:
            parent = path[:-1]
            if dest[: len(parent)] == parent:
                text = "/".join(dest[len(parent):]) or "."
            else:
                text = txt(dest[1:])
            self.setnode(path, Soft(text))
        else:
            self.canonical(dest)
            node = self.get(dest, follow=False)
            if isinstance(node, (Group,) + LINKS):
                raise Skip("only hard links to datasets")
            if node is None:
                raise Refused("missing destination")
            self.setnode(path, node)

    def remove(self, path, recursive):
        self.canonical(path)
        node = self.get(path, follow=False)
        if node is None:
            return
        if isinstance(node, LINKS):
            if recursive:
                t = self.target(path)
                if len(t) == 1:
                    raise Skip("root")
                self.canonical(t)
                self.remove(t, True)
                if self.get(path, follow=False) is None:
                    raise Skip("link in its target")
        elif isinstance(node, Group) and node.nodes and not recursive:
            raise Refused("not empty")
        if len(path) == 1:
            self.files[path[0]] = None
        else:
            self.unlink(path)

    def prepare(self, path, dest, force, rename):
        self.canonical(path)
        if len(path) < 2:
            raise Skip("copy of the root")
        if self.get(path, follow=False) is None:
            raise Refused("missing")
        if isinstance(self.get(dest), Group) and not rename:
            dest = dest + (path[-1],)
        self.canonical(dest)
        if path[: len(dest)] == dest:
            raise Refused("onto itself or its parent")
        if dest[: len(path)] == path:
            raise Refused("into itself")
        if len(dest) == 1:
            raise Skip("onto the root")
        node = self.get(dest, follow=False)
        if self.get(dest) is not None:
            if not force:
                raise Refused("exists")
            self.unlink(dest)
        elif node is not None:
            raise Skip("broken link")
        if self.get(dest[:-1]) is None:
            self.mkdir(dest[:-1], True, True)
        elif not isinstance(self.get(dest[:-1]), Group):
            raise Refused("parent is a dataset")
        return dest

    def _relink(self, node, path, source, dest):
        """Absolute links inside the tree follow the tree"""
        if isinstance(node, Soft) and node.text.startswith("/"):
            t = (source[0],) + tuple(x for x in node.text.split("/") if x)
            if t[: len(source)] == source:
                new = dest + t[len(source):]
                parent = path[:-1]
                if new[: len(parent)] == parent:
                    node.text = "/".join(new[len(parent):]) or "."
                else:
                    node.text = txt(new[1:])
            elif source[0] != dest[0]:
                raise Skip("link out of the tree in another file")
        elif isinstance(node, Group):
            for k, v in node.nodes.items():
                self._relink(v, path + (k,), source, dest)

    def move(self, path, dest, force, rename):
        dest = self.prepare(path, dest, force, rename)
        node = self.get(path, follow=False)
        if node is None:
            raise Skip("source was in the overwritten tree")
        if path[0] != dest[0]:
            if isinstance(node, LINKS):
                raise Skip("move a link to another file")
            node, orig = copy.deepcopy(node), node
        self.unlink(path)
        self.setnode(dest, node)
        self._relink(node, dest, path, dest)
        return dest

    def _copy(self, node, dereference, path, memo):
        if self.dest[: len(path)] == path:
            raise Skip("linked group into itself")
        if isinstance(node, LINKS):
            if not dereference:
                return copy.deepcopy(node)
            t = self.target(path)
            if self.get(path) is None:
                raise Skip("broken link to dereference")
            r = self.real(path)
            if isinstance(self.get(t, follow=False), LINKS) or isinstance(node, Ext):
                raise Skip("dereference link to link")
            if r[: len(self.source)] == self.source:
                raise Skip("dereference link in the tree")
            return self._copy(self.get(r), dereference, r, memo)
        if id(node) in memo:
            return memo[id(node)]
        if isinstance(node, Group):
            new = Group()
            new.nodes = {k: self._copy(v, dereference, path + (k,), memo) for k, v in sorted(node.nodes.items())}
        else:
            new = Data(node.value)
        new.attrs = copy.deepcopy(node.attrs)
        memo[id(node)] = new
        return new

    def copy(self, path, dest, force, follow, dereference):
        dest = self.prepare(path, dest, force, False)
        node = self.get(path, follow=False)
        if node is None:
            raise Skip("source was in the overwritten tree")
        if isinstance(node, LINKS) and not follow:
            self.link(dest, self.target(path), True)
            return dest
        n = self.get(path)
        if n is None:
            raise Skip("broken link")
        if isinstance(node, LINKS) and not isinstance(n, Data):
            raise Skip("follow link to group")
        self.dest, self.source = dest, self.real(path)
        if any(isinstance(x, LINKS) for _, x in self._walk(n, ())) and dereference:
            # shared nodes
            ids = [id(x) for _, x in self._walk(n, ())]
            if len(set(ids)) != len(ids):
                raise Skip("dereference shared")
        new = self._copy(n, dereference, self.source, {})
        self.setnode(dest, new)
        self._relink(new, dest, self.source, dest)
        return dest


def snapshot_model(m):
    out, ids = {}, {}
    for p, n in m.walk():
        if isinstance(n, LINKS):
            out[p] = ("link", m.target(p))
        elif isinstance(n, Data):
            out[p] = ("data", n.value, dict(n.attrs), ids.setdefault(id(n), p))
        else:
            out[p] = ("group", dict(n.attrs))
    return out


def snapshot_disk(names):
    out, ids = {}, {}

    def walk(i, f, g, path):
        out[path] = ("group", {k: int(v) for k, v in g.attrs.items()})
        for name in sorted(g):
            p = path + (name,)
            lnk = g.get(name, getlink=True)
            if isinstance(lnk, h5py.SoftLink):
                t = posixpath.normpath(posixpath.join(txt(path[1:]), lnk.path))
                out[p] = ("link", (i,) + tuple(x for x in t.split("/") if x))
            elif isinstance(lnk, h5py.ExternalLink):
                j = names.index(os.path.join(os.path.dirname(names[i]), lnk.filename))
                out[p] = ("link", (j,) + tuple(x for x in lnk.path.split("/") if x))
            else:
                node = g[name]
                if isinstance(node, h5py.Group):
                    walk(i, f, node, p)
                else:
                    key = (i, h5py.h5o.get_info(node.id).addr)
                    attrs = {k: int(v) for k, v in node.attrs.items()}
                    out[p] = ("data", int(node[()]), attrs, ids.setdefault(key, p))

    for i, fn in enumerate(names):
        if os.path.exists(fn):
            with h5py.File(fn, "r") as f:
                walk(i, f, f, (i,))
    return out


# ------------------------------------------------------- generation
PATH = st.tuples(st.integers(0, 1), st.lists(st.sampled_from(NAMES), min_size=1, max_size=3)).map(
    lambda v: (v[0],) + tuple(v[1])
)
ATTRS = st.dictionaries(st.sampled_from(["k", "l", "m"]), st.integers(-5, 5), max_size=2)


def pick_path(draw, m, kind):
    nodes = list(m.walk())
    existing = [p for p, _ in nodes if len(p) > 1]
    dirs = [p for p, n in nodes if isinstance(n, Group)]
    linked = [p for p, n in nodes if isinstance(n, LINKS) and isinstance(m.get(p), Group)]
    if kind == "existing" and existing:
        if draw(st.integers(0, 9)) < 9:
            return draw(st.sampled_from(existing))
    elif kind == "dir":
        return draw(st.sampled_from(dirs or [(0,)]))
    elif kind == "full":
        cand = [p for p, n in nodes if isinstance(n, Group) and n.nodes and len(p) > 1]
        if cand:
            return draw(st.sampled_from(cand))
    elif kind == "link":
        cand = [p for p, n in nodes if isinstance(n, LINKS)]
        if cand:
            return draw(st.sampled_from(cand))
    elif kind == "new":
        if draw(st.integers(0, 9)) < 8:
            cand = [d + (n,) for d in dirs + linked + [(1,)] for n in NAMES if len(d) < 4]
            cand = [c for c in cand if m.get(c, follow=False) is None]
            if cand:
                return draw(st.sampled_from(cand))
    return draw(PATH)


def pick_dest(draw, m):
    return pick_path(draw, m, draw(st.sampled_from(["new", "new", "dir", "existing", "any"])))


CREATE = ["mkfile", "mkdir", "link", "mkfile", "link"]
ALL = [
    "mkfile", "mkdir", "link", "copy", "move", "mkfile", "read", "update", "pop", "remove", "remove", "rmdir", "move", "move", "rename", "copy", "copy", "copy",
    "linkcopy", "temp",
]


def draw_op(draw, m, kinds):
    kind = draw(st.sampled_from(kinds))

    def path(what):
        return pick_path(draw, m, what)

    if kind == "mkdir":
        return (kind, path(draw(st.sampled_from(["new", "new", "new", "any"]))),
                draw(st.sampled_from([True, True, False])), draw(st.sampled_from([True, True, False])))
    if kind == "mkfile":
        mode = draw(st.sampled_from([None, None, None, "a", "w", "x", "w", "r+"]))
        return kind, path(draw(st.sampled_from(["new", "new", "existing"]))), draw(st.integers(0, 99)), draw(ATTRS), mode
    if kind == "read":
        return kind, path("existing")
    if kind == "update":
        return kind, path(draw(st.sampled_from(["existing", "dir"]))), draw(ATTRS), draw(B)
    if kind == "pop":
        return kind, path("existing"), draw(st.sampled_from(["k", "l", "m"])), draw(st.sampled_from([None, -7]))
    if kind == "link":
        soft = draw(st.sampled_from([True, True, False]))
        return kind, path("new"), path(draw(st.sampled_from(["existing", "existing", "any"]))), soft, draw(B)
    if kind == "remove":
        what = draw(st.sampled_from(["existing", "existing", "existing", "link", "dir"]))
        return kind, path(what), draw(B)
    if kind == "rmdir":
        return kind, path("existing")
    if kind in ("move", "rename"):
        src = path(draw(st.sampled_from(["existing", "full"])))
        return kind, src, pick_dest(draw, m), draw(B), kind == "rename" or draw(B)
    if kind == "copy":
        src = path(draw(st.sampled_from(["existing", "full"])))
        return kind, src, pick_dest(draw, m), draw(B), draw(B), draw(B)
    if kind == "linkcopy":
        return "copy", path("link"), pick_dest(draw, m), draw(B), draw(B), draw(B)
    return kind, path("dir"), draw(st.one_of(st.none(), st.sampled_from(NAMES))), draw(B), draw(st.integers(0, 99))


def apply_model(m, op):
    kind, args = op[0], op[1:]
    if kind in ("mkdir", "mkfile", "read", "pop", "remove", "copy"):
        return getattr(m, kind)(*args)
    if kind == "update":
        return m.update(*args[:2])
    if kind == "link":
        return m.link(*args[:3])
    if kind == "rmdir":
        if isinstance(m.get(args[0]), Group):
            m.remove(args[0], True)
        return None
    if kind in ("move", "rename"):
        return m.move(*args)
    if kind == "temp":
        path, name, force, value = args
        if m.files[path[0]] is None:
            raise Skip("no file")
        m.canonical(path + ("tmp",))
        if name is None:
            return None
        dest = path + (name,)
        if m.get(dest) is not None and not force:
            return None
        m.mkfile(path + ("tmp",), value, {}, None)
        m.move(path + ("tmp",), dest, force, True)
        return None
    raise ValueError(kind)


def apply_disk(names, op):
    kind, args = op[0], op[1:]

    def P(path, **kw):
        return h5fs.Path(names[path[0]] + "::" + txt(path[1:]), **kw)

    if kind == "mkdir":
        p = P(args[0])
        assert p.mkdir(recursive=args[1], force=args[2]) == p
    elif kind == "mkfile":
        path, value, attrs, mode = args
        kw = {} if mode is None else {"mode": mode}
        p = P(path)
        assert p.mkfile(data=value, attributes=attrs, **kw) == p
    elif kind == "read":
        return P(args[0]).read()
    elif kind == "update":
        if args[2]:
            P(args[0]).update_stats(**args[1])
        else:
            with P(args[0]).openstats() as attrs:
                attrs.update(args[1])
    elif kind == "pop":
        return P(args[0]).pop_stat(args[1], default=args[2])
    elif kind == "link":
        path, dest, soft, relative = args
        target = P(dest)
        if relative and path[0] == dest[0]:
            target = posixpath.relpath(txt(dest[1:]), txt(path[1:-1]))
        P(path).link(target, soft=soft)
    elif kind == "remove":
        P(args[0]).remove(recursive=args[1])
    elif kind == "rmdir":
        P(args[0]).rmdir()
    elif kind == "move":
        return P(args[0]).move(P(args[1]), force=args[2], rename=args[3])
    elif kind == "rename":
        return P(args[0]).rename(P(args[1]), force=args[2])
    elif kind == "copy":
        return P(args[0]).copy(P(args[1]), force=args[2], follow=args[3], dereference=args[4])
    elif kind == "temp":
        path, name, force, value = args
        with P(path).temp(name=name, force=force) as tmp:
            assert not tmp.lexists and tmp.parent == P(path)
            tmp.mkfile(data=value)
            assert tmp.read() == value


def check_queries(names, m, path):
    def P(path, **kw):
        return h5fs.Path(names[path[0]] + "::" + txt(path[1:]), **kw)

    if any(m.real(path[:i])[0] != path[0] for i in range(1, len(path))):
        return  # through an external link
    p = P(path)
    node, lnode = m.get(path), m.get(path, follow=False)
    assert p.exists == (node is not None), path
    assert p.lexists == (lnode is not None), path
    assert p.isdir == isinstance(node, Group), path
    assert p.isfile == isinstance(node, Data), path
    assert p.islink == isinstance(lnode, LINKS), path
    if isinstance(node, Group):
        assert sorted(x.name for x in p.listdir()) == sorted(node.nodes), path
        assert all(x.parent == p for x in p)
        for n in NAMES if m.real(path) == path else []:
            assert (n in p) == (m.get(path + (n,)) is not None)
            new = p.nonexisting_name(n)
            assert m.get(path + (new,)) is None
            assert new == n or m.get(path + (n,)) is not None
    else:
        assert not m.files[path[0]] or list(p.listdir()) == []
    if isinstance(lnode, LINKS) and m.real(path[:-1]) == path[:-1]:
        t = m.target(path)
        assert p.linkdest() == P(t), path
        while isinstance(m.get(t, follow=False), LINKS) and m.real(t[:-1]) == t[:-1]:
            t = m.target(t)
        if m.real(t[:-1]) == t[:-1]:
            assert p.linkdest(follow=True) == P(t), path
            assert p.node(follow=True) == P(t)
    elif not isinstance(lnode, LINKS):
        assert p.linkdest() is None
        assert p.node() == p
    if node is not None:
        assert {k: int(v) for k, v in p.stats().items()} == node.attrs, path
        for k in "klm":
            assert p.get_stat(k, default=-99) == node.attrs.get(k, -99)
        if isinstance(node, Data):
            assert p.read() == node.value and p.shape == () and p.ndim == 0 and p.size == 1
        else:
            assert p.shape is None and p.ndim is None and p.dtype is None
    elif m.files[path[0]] is not None:
        assert p.get_stat("k", default=7) == 7
        for func in (p.stats, p.read):
            try:
                func()
            except fs.Missing:
                pass
            else:
                assert False, "missing path"


EXC = {
    "exists": fs.AlreadyExists,
    "missing": fs.Missing,
    "not empty": fs.DirectoryIsNotEmpty,
    "directory": fs.NotAFile,
    "a file": fs.NotADirectory,
    "no parent group": fs.MissingParentDirectory,
}


@check(quick=1200, thorough=20000, shards={"quick": 6, "thorough": 8})
@given(st.integers(3, 7), st.integers(3, 8), st.data())
def history(ncreate, nops, data):
    root = tempfile.mkdtemp()
    names = [os.path.join(root, "f%d.h5" % i) for i in range(2)]
    m = Model()
    nchanged = 0
    done = []
    try:
        for i in range(ncreate + nops):
            op = draw_op(data.draw, m, CREATE if i < ncreate else ALL)
            after = copy.deepcopy(m)
            before = snapshot_model(m)
            try:
                m.assert_sane()
                result, refused = apply_model(after, op), False
                after.assert_sane()
            except Skip:
                continue
            except Refused as e:
                after, refused, result = m, str(e), None
            done.append(op)
            try:
                with contained(root):
                    got = apply_disk(names, op)
            except AssertionError:
                raise
            except Exception as e:
                assert refused, "%r failed with %r" % (op, e)
                exc = EXC.get(refused, Exception)
                assert isinstance(e, exc), "%r: %r instead of %r" % (op, e, exc)
            else:
                assert not refused, "%r is not refused" % (op,)
                if op[0] in ("read", "pop"):
                    assert got == result, op
                elif op[0] in ("move", "rename", "copy"):
                    exp = names[result[0]] + "::" + txt(result[1:])
                    assert got == exp, op
            a, b = snapshot_disk(names), snapshot_model(after)
            for j in range(2):
                # opening can create an empty file
                if m.files[j] is None and after.files[j] is None and a.get((j,)) == ("group", {}):
                    after = copy.deepcopy(after)
                    after.files[j] = Group()
                    b = snapshot_model(after)
            assert a == b, "after %r: tree is %r instead of %r" % (op, a, b)
            nchanged += b != before
            m = after
        with contained(root):
            for p, _ in list(m.walk()):
                check_queries(names, m, p)
            for p in [(0, "a"), (1, "a", "b"), (0, "c", "b", "a")]:
                check_queries(names, m, p)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        rec.case(done, nontrivial=nchanged > 2)
    for op in done:
        rec.label(op[0])


# ------------------------------------------------------- values
TEXT = st.text(st.characters(blacklist_characters="\0", blacklist_categories=("Cs",)), max_size=12)
NUMBER = st.one_of(
    st.integers(-(2**63), 2**63 - 1), st.floats(allow_nan=True), st.booleans(), st.complex_numbers(allow_nan=False),
)
DTYPES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "?", ">i4", ">f8"]


@st.composite
def arrays(draw):
    dt = np.dtype(draw(st.sampled_from(DTYPES)))
    shape = tuple(draw(st.lists(st.integers(0, 4), min_size=0, max_size=3)))
    n = int(np.prod(shape, dtype=int))
    raw = draw(st.binary(min_size=n * dt.itemsize, max_size=n * dt.itemsize))
    if dt.kind == "b":
        raw = bytes(b & 1 for b in raw)
    return np.frombuffer(raw, dtype=dt, count=n).reshape(shape).copy()


def textlists():
    """Lists or arrays of text"""
    lst = st.lists(TEXT, min_size=1, max_size=4)
    asc = st.lists(st.text("abz09 _", max_size=5).map(lambda s: s.strip()), min_size=1, max_size=4)
    return st.one_of(
        lst.map(lambda v: ("list", v)), lst.map(lambda v: ("tuple", v)), lst.map(lambda v: ("object", v)),
        asc.map(lambda v: ("U", v)), asc.map(lambda v: ("S", v)), asc.map(lambda v: ("bytes", v)),
    )


def maketext(kind, lst):
    if kind == "list":
        return list(lst)
    if kind == "tuple":
        return tuple(lst)
    if kind == "object":
        return np.array(lst, dtype=object)
    if kind == "U":
        return np.array(lst, dtype=str)
    if kind == "S":
        return np.array([s.encode("ascii") for s in lst])
    return [s.encode("ascii") for s in lst]


def equal(a, b):
    """Same type of numbers and bitwise the same values"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind or a.dtype.itemsize != b.dtype.itemsize:
        return False
    return a.astype(a.dtype.newbyteorder("=")).tobytes() == b.astype(b.dtype.newbyteorder("=")).tobytes()


VALUE = st.one_of(
    TEXT.map(lambda v: ("text", v)), st.text("abc 0.-", max_size=8).map(lambda v: ("bytes", v)),
    NUMBER.map(lambda v: ("number", v)), arrays().map(lambda v: ("array", v)),
    textlists().map(lambda v: ("textlist", v)),
    st.lists(st.integers(-1000, 1000), max_size=5).map(lambda v: ("list", v)),
    st.lists(st.floats(allow_nan=False), min_size=1, max_size=5).map(lambda v: ("list", v)),
)


def make(kind, v):
    if kind == "bytes":
        return v.encode("ascii")
    if kind == "textlist":
        return maketext(*v)
    return v


def same(kind, v, got):
    if kind in ("text", "bytes"):
        return isinstance(got, str) and got == v
    if kind == "textlist":
        return isinstance(got, np.ndarray) and got.shape == (len(v[1]),) and [str(s) for s in got] == list(v[1])
    if kind == "number":
        return equal(np.asarray(v), got)
    if kind == "list":
        return np.asarray(got).shape == (len(v),) and list(got) == list(v)
    return equal(v, got)


@check(quick=1500, thorough=20000, shards={"quick": 2, "thorough": 6})
@given(st.lists(VALUE, min_size=1, max_size=3), st.lists(VALUE, min_size=1, max_size=3), B)
def values(data, attrs, asgroup):
    root = tempfile.mkdtemp()
    try:
        rec.case((data, attrs), nontrivial=any(k != "list" for k, _ in data + attrs))
        top = h5fs.Path(os.path.join(root, "f.h5::/entry")).mkdir()
        other = top["other"].mkfile(data=1, attributes={"a0": "unchanged"})
        stats = {"a%d" % i: make(*v) for i, v in enumerate(attrs)}
        for i, v in enumerate(data):
            top["d%d" % i].mkfile(data=make(*v), attributes=stats)
        group = top["g"].mkdir() if asgroup else top["g"].mkfile(data=0)
        group.update_stats(**stats)
        last = dict(stats)
        # other handle
        top = h5fs.Path(os.path.join(root, "f.h5::/entry"), mode="r")
        for i, v in enumerate(data):
            node = top["d%d" % i]
            assert same(v[0], v[1], node.read()), (v, node.read())
            if v[0] == "array":
                assert node.shape == v[1].shape and node.dtype == v[1].dtype
                assert node.ndim == v[1].ndim and node.size == v[1].size
                with node.open() as dset:
                    assert dset.shape == v[1].shape
            found = node.stats()
            assert sorted(found) == sorted(stats)
            for j, a in enumerate(attrs):
                assert same(a[0], a[1], found["a%d" % j]), (a, found)
        node = top["g"]
        for j, a in enumerate(attrs):
            assert same(a[0], a[1], node.get_stat("a%d" % j)), a
        assert node.get_stat("missing") is None and node.get_stat("missing", default=3) == 3
        assert top["other"].stats() == {"a0": "unchanged"} and top["other"].read() == 1
        assert other.get_stat("a0") == "unchanged"
        # overwrite one attribute
        node = h5fs.Path(os.path.join(root, "f.h5::/entry/g"))
        node.update_stats(a0="new")
        exp = dict(enumerate(attrs))
        assert node.get_stat("a0") == "new"
        assert sorted(node.stats()) == sorted(last)
        for j, a in enumerate(attrs):
            if j:
                assert same(a[0], a[1], node.get_stat("a%d" % j)), a
        for i, v in enumerate(data):
            assert same(attrs[0][0], attrs[0][1], top["d%d" % i].get_stat("a0"))
    finally:
        shutil.rmtree(root, ignore_errors=True)


@check(quick=600, thorough=8000)
@given(st.lists(st.one_of(TEXT, st.binary(max_size=6).map(lambda b: b.replace(b"\0", b"x"))), min_size=1, max_size=4),
       B, B, B)
def encodings(strings, scalar, raising, opaque):
    """Byte strings without known encoding: refused, kept as bytes or as opaque data"""
    def ascii_only(s):
        return isinstance(s, str) or all(c < 128 for c in s)

    data = strings[0] if scalar else strings
    strings = strings[:1] if scalar else strings
    decodable = all(ascii_only(s) for s in strings)
    # only one type of strings when the encoding is not known
    assume(decodable or not any(isinstance(s, str) for s in strings))
    # opaque data has a fixed length
    assume(decodable or not opaque or (len(set(map(len, strings))) == 1 and strings[0]))
    rec.case((strings, scalar, raising, opaque), nontrivial=not decodable)
    try:
        out = h5fs.prepare_h5string(data, raiseExtended=raising, useOpaqueDataType=opaque)
    except UnicodeDecodeError:
        assert raising and not decodable
        return
    assert decodable or not raising
    root = tempfile.mkdtemp()
    try:
        p = h5fs.Path(os.path.join(root, "f.h5::/x")).mkfile(
            data=data, prepare_kwargs={"raiseExtended": raising, "useOpaqueDataType": opaque}
        )
        with p.open(mode="r") as dset:
            got = dset[()]
        got = [got] if scalar else list(got)
        exp = [s.encode("utf-8") if isinstance(s, str) else s for s in strings]
        if decodable:
            assert h5py.check_string_dtype(p.dtype).encoding == "utf-8"
            read = p.read()
            read = [read] if scalar else list(read)
            assert read == [s if isinstance(s, str) else s.decode("ascii") for s in strings]
        got = [g.tobytes() if isinstance(g, np.void) else g for g in got]
        assert [bytes(g) for g in got] == exp, (got, exp)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------- path algebra
SEG = st.sampled_from(["a", "b", "cc", "d.txt", "..", ".", "", "a b", "x:y"])
RAW = st.tuples(B, st.lists(SEG, min_size=1, max_size=6)).map(lambda v: ("/" if v[0] else "") + "/".join(v[1]).lstrip("/"))


def norm(p):
    p = posixpath.normpath("/" + p)
    return p[1:] if p.startswith("//") else p


@check(quick=1000, thorough=20000)
@given(RAW, RAW, RAW, st.sampled_from(["/d/f.h5", "/d/e.x/f.nx.h5", "/f.hdf5"]))
def path_algebra(p1, p2, p3, fn):
    rec.case((p1, p2, p3, fn))
    a, b = h5fs.Path(fn + "::" + p1), h5fs.Path(p2, h5file=fn)
    for p, raw in ((a, p1), (b, p2)):
        exp = norm(raw)
        assert p.path == exp and str(p) == p.location == fn + "::" + exp and p.device == fn
        assert h5fs.Path(str(p)) == p and hash(h5fs.Path(str(p))) == hash(p)
        assert p.name == posixpath.basename(exp)
        assert p.parent.path == posixpath.dirname(exp) and p.parent.device == fn
        assert p.root.path == "/" and p.root.device == fn
        if exp != "/":
            assert p.parent[p.name] == p
        assert [q.path for q in p.iterup][-1] == "/"
        assert p.readonly().mode == "r" if hasattr(p, "mode") else True
        assert p.readonly() == p and p.readonly().device.mode == "r"
    rel = a.relpath(b.path)
    assert not posixpath.isabs(rel) and a[rel] == b
    exp = norm(posixpath.join(a.path, p3))
    assert a[p3].path == exp and a[p3].device == fn and a[p3].device is a.device
    exp = norm(p3) if p3.startswith("/") else norm(posixpath.join(a.parent.path, p3))
    assert a.sibling(p3) == fn + "::" + exp
    common = a.common(b)
    assert common == b.common(a) and common.path == posixpath.commonpath([a.path, b.path])
    assert a.common(h5fs.Path("/other.h5::" + p2)) is None
    assert (a == b) == (a.path == b.path) and (a < b) == (str(a) < str(b))
