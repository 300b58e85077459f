"""C12: local file tree against a simple model."""
import os
import copy
import shutil
import posixpath
import tempfile
from vh import st, given, assume, check, rec, rule
from lib_contained import contained
from spectrocrunch.io import fs, localfs

rule(
    "Sequences of up to 14 operations (mkdir, write, append, read, link, hard link, copy, move, "
    "rename, remove, temp, find, ...) on a tree of at most 3 levels with few names, so that "
    "operations collide; the whole tree is compared with the model after every operation. "
    "Non-trivial: at least 3 operations changed the tree. Operations that would create link "
    "cycles are skipped."
)

# ------------------------------------------------------- model
class Refused(Exception):
    """The operation must raise an exception and change nothing."""


class Skip(Exception):
    """Not specified: do not try."""


class File(object):
    def __init__(self, data):
        self.data = data


class Link(object):
    def __init__(self, text):
        self.text = text


class Tree(object):
    """Directories are dictionaries."""

    def __init__(self):
        self.root = {}

    def get(self, path, follow=True, _n=0):
        """Node at a tuple of names (None when missing)."""
        if _n > 20:
            raise Skip("link cycle")
        node = self.root
        for i, name in enumerate(path):
            if not isinstance(node, dict) or name not in node:
                return None
            child = node[name]
            if isinstance(child, Link) and (follow or i < len(path) - 1):
                target = self.target(path[:i] + (name,), _n)
                if target is None:
                    return None
                child = self.get(target, True, _n + 1)
                if child is None:
                    return None
            node = child
        return node

    def real(self, path, _n=0):
        """Real location of a directory path."""
        out = ()
        for name in path:
            node = self.get(out + (name,), follow=False)
            if isinstance(node, Link):
                if _n > 20:
                    raise Skip("link cycle")
                t = self.target(out + (name,), _n)
                if t is None:
                    return out + (name,)
                out = self.real(t, _n + 1)
            else:
                out = out + (name,)
        return out

    def target(self, path, _n=0):
        """Path a link points to, None when outside the tree"""
        node = self.get(path, follow=False, _n=_n + 1)
        base = self.real(path[:-1], _n + 1)
        p = posixpath.normpath(posixpath.join("/r", *(base + (node.text,))))
        parts = tuple(p.split("/")[1:])
        if parts[:1] != ("r",):
            return None
        return parts[1:]

    def walk(self, node=None, path=()):
        node = self.root if node is None else node
        for name, child in sorted(node.items()):
            yield path + (name,), child
            if isinstance(child, dict):
                for x in self.walk(child, path + (name,)):
                    yield x

    def links(self):
        return [(p, n) for p, n in self.walk() if isinstance(n, Link)]

    def assert_sane(self):
        """No link cycles, no links to directories that contain the link."""
        for p, n in self.links():
            self.get(p)
            t = self.target(p)
            if t is None:
                raise Skip("outside")
            if p[: len(t)] == t:
                raise Skip("link to parent")
            r = self.real(p)
            if p[: len(r)] == r:
                raise Skip("link to parent")

    def canonical(self, path):
        if self.real(path[:-1]) != path[:-1]:
            raise Skip("path through a link")

    # operations
    def setnode(self, path, node):
        parent = self.get(path[:-1])
        if not isinstance(parent, dict):
            raise Refused("no parent for the node")
        parent[path[-1]] = node

    def mkdir(self, path, recursive, force):
        node = self.get(path)
        if node is not None:
            if force and isinstance(node, dict):
                return
            raise Refused("a file" if force else "exists")
        if self.get(path, follow=False) is not None:
            raise Skip("broken link")
        n = self.root
        for i in range(len(path)):
            p = path[: i + 1]
            n2 = self.get(p)
            if n2 is None:
                if self.get(p, follow=False) is not None:
                    raise Skip("broken link")
                if not recursive and i < len(path) - 1:
                    raise Refused("no parent")
                n[path[i]] = {}
                n2 = n[path[i]]
            elif not isinstance(n2, dict):
                raise Refused("file in path")
            n = n2

    def write(self, path, text, mode):
        node = self.get(path)
        if isinstance(node, dict):
            raise Refused("directory")
        if node is None:
            if mode == "r+" or mode == "r":
                plain = isinstance(self.get(path[:-1]), dict) and self.get(path, follow=False) is None
                raise Refused("missing" if plain else "part of a file")
            if self.get(path, follow=False) is not None:
                raise Skip("broken link")
            self.setnode(path, File(text))
        elif mode in ("x", "r"):
            raise Refused("exclusive or read only")
        elif mode == "w":
            node.data = text
        elif mode == "r+":
            node.data = text + node.data[len(text):]
        else:
            node.data += text

    def read(self, path):
        node = self.get(path)
        if not isinstance(node, File):
            raise Refused("not a file")
        return node.data

    def link(self, path, dest, soft, relative):
        self.canonical(path)
        if self.get(path, follow=False) is not None:
            raise Refused("link exists")
        if soft:
            text = posixpath.relpath(posixpath.join("/r", *dest), posixpath.join("/r", *path[:-1]))
            self.setnode(path, Link(text))
        else:
            self.canonical(dest)
            node = self.get(dest, follow=False)
            if isinstance(node, Link):
                raise Skip("hard link to a link")
            if not isinstance(node, File):
                raise Refused("no hard link to directories")
            self.setnode(path, node)

    def unlink(self, path):
        del self.get(path[:-1])[path[-1]]

    def remove(self, path, recursive):
        self.canonical(path)
        node = self.get(path, follow=False)
        if node is None:
            return
        if isinstance(node, Link):
            if recursive:
                t = self.target(path)
                if t == ():
                    raise Skip("root")
                if path[: len(t)] == t:
                    raise Skip("link in its target")
                self.canonical(t)
                self.remove(t, True)
                if self.get(path, follow=False) is None:
                    raise Skip("link in its target")
        elif isinstance(node, dict) and node and not recursive:
            raise Refused("not empty")
        self.unlink(path)

    def prepare(self, path, dest, force, rename):
        self.canonical(path)
        if self.get(path, follow=False) is None:
            raise Refused("missing")
        if isinstance(self.get(dest), dict) and not rename:
            dest = dest + (path[-1],)
        self.canonical(dest)
        if dest == () or dest == path or path[: len(dest)] == dest:
            raise Refused("onto itself or its parent")
        if dest[: len(path)] == path:
            raise Refused("into itself")
        node = self.get(dest, follow=False)
        if self.get(dest) is not None:
            if not force:
                raise Refused("exists")
            self.unlink(dest)
        elif node is not None:
            raise Skip("broken link")
        if self.get(dest[:-1]) is None:
            self.mkdir(dest[:-1], True, True)
        elif not isinstance(self.get(dest[:-1]), dict):
            raise Refused("parent is a file")
        return dest

    def move(self, path, dest, force, rename):
        dest = self.prepare(path, dest, force, rename)
        node = self.get(path, follow=False)
        if node is None:
            raise Skip("source was in the overwritten tree")
        self.unlink(path)
        self.setnode(dest, node)
        return dest

    def copytree(self, node, dereference, path):
        if self.dest[: len(path)] == path:
            raise Skip("linked directory into itself")
        if isinstance(node, Link):
            if not dereference:
                return Link(node.text)
            n = self.get(path)
            if n is None:
                raise Skip("broken link to dereference")
            return self.copytree(n, dereference, self.real(path))
        if isinstance(node, dict):
            return {k: self.copytree(v, dereference, path + (k,)) for k, v in node.items()}
        return File(node.data)

    def copy(self, path, dest, force, follow, dereference):
        dest = self.prepare(path, dest, force, False)
        node = self.get(path, follow=False)
        if node is None:
            raise Skip("source was in the overwritten tree")
        if isinstance(node, Link) and not follow:
            t = self.target(path)
            self.link(dest, t, True, False)
            return dest
        n = self.get(path)
        if n is None:
            raise Skip("broken link")
        self.dest = dest
        self.setnode(dest, self.copytree(n, dereference, self.real(path)))
        return dest


def snapshot_model(tree):
    out, ids = {}, {}
    for p, n in tree.walk():
        if isinstance(n, Link):
            out[p] = ("link", n.text)
        elif isinstance(n, File):
            out[p] = ("file", n.data, ids.setdefault(id(n), p))
        else:
            out[p] = ("dir",)
    return out


def snapshot_disk(root):
    out, ids = {}, {}

    def walk(d, path):
        for name in sorted(os.listdir(d)):
            full, p = os.path.join(d, name), path + (name,)
            if os.path.islink(full):
                out[p] = ("link", os.readlink(full))
            elif os.path.isdir(full):
                out[p] = ("dir",)
                walk(full, p)
            else:
                with open(full) as f:
                    out[p] = ("file", f.read(), ids.setdefault(os.stat(full).st_ino, p))

    walk(root, ())
    return out


# ------------------------------------------------------- generation
NAMES = ["a", "b", "c"]
PATH = st.lists(st.sampled_from(NAMES), min_size=1, max_size=3).map(tuple)
TEXT = st.sampled_from(["", "x", "hello", "12\n34"])
B = st.booleans()


def pick_path(draw, tree, kind):
    """A path which is likely to exist (existing), or to be new (new), or anything."""
    nodes = list(tree.walk())
    existing = [p for p, _ in nodes]
    dirs = [()] + [p for p, n in nodes if isinstance(n, dict)]
    linked = [p for p, n in nodes if isinstance(n, Link) and isinstance(tree.get(p), dict)]
    if kind == "existing" and existing:
        if draw(st.integers(0, 9)) < 9:
            return draw(st.sampled_from(existing))
    elif kind == "dir":
        return draw(st.sampled_from(dirs))
    elif kind == "link":
        cand = [p for p, n in nodes if isinstance(n, Link)]
        if cand:
            return draw(st.sampled_from(cand))
    elif kind == "new":
        if draw(st.integers(0, 9)) < 8:
            cand = [d + (n,) for d in dirs + linked for n in NAMES if len(d) < 3]
            cand = [c for c in cand if tree.get(c, follow=False) is None]
            if cand:
                return draw(st.sampled_from(cand))
    return draw(PATH)


def pick_dest(draw, tree):
    return pick_path(draw, tree, draw(st.sampled_from(["new", "new", "dir", "existing", "any"])))


CREATE = ["mkdir", "mkdir", "write", "mkfile", "link", "link"]
ALL = CREATE + [
    "write", "read", "remove", "remove", "remove", "rmdir", "move", "move", "rename", "siblingmove", "copy", "copy",
    "copy", "temp", "renameremove", "symlinkcopy",
]


def draw_op(draw, tree, kinds):
    kind = draw(st.sampled_from(kinds))

    def path(what):
        return pick_path(draw, tree, what)

    if kind == "mkdir":
        p = path(draw(st.sampled_from(["new", "new", "new", "any"])))
        if draw(st.integers(0, 4)) == 0:
            p = p[:2] + (draw(st.sampled_from(NAMES)),)
        return kind, p, draw(st.sampled_from([True, True, False])), draw(st.sampled_from([True, True, False]))
    if kind == "write":
        mode = draw(st.sampled_from(["a+", "a", "w", "w+", "x", "r+", "r"]))
        return kind, path(draw(st.sampled_from(["new", "existing"]))), draw(TEXT), mode
    if kind == "mkfile":
        return kind, path("new"), draw(TEXT)
    if kind == "read":
        return kind, path("existing")
    if kind == "link":
        soft = draw(st.sampled_from([True, True, False]))
        return kind, path("new"), path(draw(st.sampled_from(["existing", "existing", "any"]))), soft, draw(B)
    if kind == "remove":
        return kind, path(draw(st.sampled_from(["existing", "existing", "link"]))), draw(B)
    if kind == "rmdir":
        return kind, path("existing")
    if kind == "siblingmove":
        return kind, path("existing"), draw(st.sampled_from(NAMES)), draw(B), draw(B)
    if kind == "move":
        return kind, path("existing"), pick_dest(draw, tree), draw(B), draw(B)
    if kind in ("rename", "renameremove"):
        return kind, path("existing"), pick_dest(draw, tree), draw(B)
    if kind == "copy":
        return kind, path("existing"), pick_dest(draw, tree), draw(B), draw(B), draw(B)
    if kind == "symlinkcopy":
        return "copy", path("link"), pick_dest(draw, tree), draw(B), draw(B), draw(B)
    return kind, path("dir"), draw(st.one_of(st.none(), st.sampled_from(NAMES))), draw(B), draw(TEXT), draw(
        st.sampled_from([True, True, False]))


def apply_model(tree, op):
    """Result of the operation"""
    kind, args = op[0], op[1:]
    if kind == "mkdir":
        return tree.mkdir(*args)
    if kind == "write":
        path, text, mode = args
        return tree.write(path, text, {"a+": "a", "w+": "w"}.get(mode, mode))
    if kind == "mkfile":
        return tree.write(args[0], args[1], "a")
    if kind == "read":
        return tree.read(*args)
    if kind == "link":
        return tree.link(*args)
    if kind == "remove":
        return tree.remove(*args)
    if kind == "rmdir":
        if isinstance(tree.get(args[0]), dict):
            tree.remove(args[0], True)
        return None
    if kind == "move":
        return tree.move(*args)
    if kind == "rename":
        return tree.move(*(args + (True,)))
    if kind == "siblingmove":
        path, name, force, rename = args
        return tree.move(path, path[:-1] + (name,), force, rename)
    if kind == "copy":
        return tree.copy(*args)
    if kind == "renameremove":
        path, dest, force = args
        tree.canonical(path)
        if tree.get(path, follow=False) is None:
            raise Skip("missing")
        if path == dest or path[: len(dest)] == dest or dest[: len(path)] == path:
            raise Skip("onto itself")
        if tree.get(dest) is not None and not force:
            tree.canonical(dest)
            if isinstance(tree.get(path, follow=False), Link):
                raise Skip("link")
            return tree.remove(path, True)
        return tree.move(path, dest, force, True)
    if kind == "temp":
        path, name, force, text, create = args
        d = tree.get(path)
        if not isinstance(d, dict):
            raise Skip("no directory")
        tree.canonical(path + ("tmp",))
        if not create or name is None:
            return None
        dest = path + (name,)
        if tree.get(dest) is not None and not force:
            return None
        tree.write(path + ("tmp",), text, "w")
        tree.move(path + ("tmp",), dest, force, True)
        return None
    raise ValueError(kind)


def apply_disk(root, op):
    kind, args = op[0], op[1:]

    def P(path, **kw):
        return localfs.Path(os.path.join(root, *path), **kw)

    if kind == "mkdir":
        p = P(args[0])
        assert p.mkdir(recursive=args[1], force=args[2]) == p
    elif kind == "write":
        path, text, mode = args
        P(path, mode=mode).write(text)
    elif kind == "mkfile":
        P(args[0]).mkfile(data=args[1])
    elif kind == "read":
        return P(args[0]).read()
    elif kind == "link":
        path, dest, soft, relative = args
        target = P(dest)
        if relative:
            target = posixpath.relpath(posixpath.join("/r", *dest), posixpath.join("/r", *path[:-1]))
        P(path).link(target, soft=soft)
    elif kind == "remove":
        P(args[0]).remove(recursive=args[1])
    elif kind == "rmdir":
        P(args[0]).rmdir()
    elif kind == "move":
        return P(args[0]).move(P(args[1]), force=args[2], rename=args[3])
    elif kind == "rename":
        return P(args[0]).rename(P(args[1]), force=args[2])
    elif kind == "siblingmove":
        return P(args[0]).move(args[1], force=args[2], rename=args[3])
    elif kind == "copy":
        return P(args[0]).copy(P(args[1]), force=args[2], follow=args[3], dereference=args[4])
    elif kind == "renameremove":
        P(args[0]).renameremove(P(args[1]), force=args[2])
    elif kind == "temp":
        path, name, force, text, create = args
        with P(path).temp(name=name, force=force) as tmp:
            assert not tmp.lexists and tmp.parent == P(path)
            if create:
                tmp.write(text)
                assert tmp.read() == text


def check_queries(root, tree, path):
    p = localfs.Path(os.path.join(root, *path))
    node, lnode = tree.get(path), tree.get(path, follow=False)
    assert p.exists == (node is not None), path
    assert p.lexists == (lnode is not None), path
    assert p.isdir == isinstance(node, dict), path
    assert p.isfile == isinstance(node, File), path
    assert p.islink == isinstance(lnode, Link), path
    if isinstance(node, dict):
        names = sorted(x.name for x in p.listdir())
        assert names == sorted(node), path
        assert all(x.parent == p for x in p)
        for n in NAMES:
            assert (n in p) == (tree.get(path + (n,)) is not None)
            new = p.nonexisting_name(n)
            assert tree.get(path + (new,)) is None
            if tree.get(path + (n,)) is None:
                assert new == n
    else:
        assert list(p.listdir()) == []
    if isinstance(lnode, Link) and tree.real(path[:-1]) == path[:-1]:
        t = tree.target(path)
        assert p.linkdest() == localfs.Path(os.path.join(root, *t)), path
        while isinstance(tree.get(t, follow=False), Link) and tree.real(t[:-1]) == t[:-1]:
            t = tree.target(t)
        if tree.real(t[:-1]) == t[:-1]:
            assert p.linkdest(follow=True) == localfs.Path(os.path.join(root, *t)), path
            assert p.node(follow=True) == p.linkdest(follow=True)
        assert p.checksum == p.linkdest().checksum or p.linkdest().islink
    elif not isinstance(lnode, Link):
        assert p.linkdest() is None
        assert p.node() == p
    if isinstance(node, File):
        assert p.stats()["size"] == len(node.data)
        assert p.get_stat("size") == len(node.data)
        assert p.get_stat("nothing", default=5) == 5
    elif node is None:
        try:
            assert p.get_stat("size", default=7) == 7
        except NotADirectoryError:
            pass  # part of a file
        try:
            p.stats()
        except (fs.Missing, NotADirectoryError):
            pass
        else:
            assert False, "stats of a missing path"


EXC = {
    "exists": fs.AlreadyExists,
    "missing": fs.Missing,
    "not empty": fs.DirectoryIsNotEmpty,
    "directory": fs.NotAFile,
    "a file": fs.NotADirectory,
    "no parent": (fs.MissingParentDirectory, fs.Missing),
}


@check(quick=2000, thorough=30000, shards={"quick": 5, "thorough": 8})
@given(st.integers(2, 7), st.integers(1, 7), st.data())
def history(ncreate, nops, data):
    root = tempfile.mkdtemp()
    tree = Tree()
    nchanged = 0
    done = []
    try:
        for i in range(ncreate + nops):
            op = draw_op(data.draw, tree, CREATE if i < ncreate else ALL)
            after = copy.deepcopy(tree)
            before = snapshot_model(tree)
            try:
                tree.assert_sane()
                result, refused = apply_model(after, op), False
                after.assert_sane()
            except Skip:
                continue
            except Refused as e:
                after, refused, result = tree, str(e), None
            done.append(op)
            try:
                with contained(root):
                    got = apply_disk(root, op)
            except AssertionError:
                raise
            except Exception as e:
                assert refused, "%r failed with %r" % (op, e)
                exc = EXC.get(refused, (fs.FileSystemException, OSError))
                assert isinstance(e, exc), "%r: %r instead of %r" % (op, e, exc)
            else:
                assert not refused, "%r is not refused" % (op,)
                if op[0] == "read":
                    assert got == result
                elif op[0] in ("move", "rename", "copy", "siblingmove"):
                    assert got == localfs.Path(os.path.join(root, *result)), op
            a, b = snapshot_disk(root), snapshot_model(after)
            assert a == b, "after %r: tree is %r instead of %r" % (op, a, b)
            nchanged += b != before
            tree = after
        with contained(root):
            for p, _ in list(tree.walk()):
                check_queries(root, tree, p)
            for p in [("a",), ("a", "b"), ("c", "b", "a")]:
                check_queries(root, tree, p)
            if not tree.links():
                check_walks(root, tree)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        rec.case(done, nontrivial=nchanged > 2)
    for op in done:
        rec.label(op[0])


def check_walks(root, tree):
    top = localfs.Path(root)
    everything = dict(tree.walk())

    def flat(t):
        path, lst = t
        out = [path]
        for sub in lst or []:
            out += flat(sub)
        return [p for p in out if p is not None]

    def rel(paths):
        return sorted(tuple(os.path.relpath(p.path, root).split(os.sep)) for p in paths if p != top)

    assert rel(flat(top.tree())) == sorted(everything)
    dirs = sorted(p for p, n in everything.items() if isinstance(n, dict))
    assert rel(flat(top.tree(files=False))) == dirs
    assert rel(flat(top.tree(recursive=False))) == sorted(p for p in everything if len(p) == 1)
    assert rel(flat(top.tree(recursive=False, depth=1))) == sorted(p for p in everything if len(p) <= 2)
    txt = top.strtree()
    assert len([line for line in txt.split("\n") if "+-" in line]) == len(everything) + 1
    for name in NAMES:
        found = rel(top.find(lambda p: p.name == name, recursive=True))
        assert found == sorted(p for p in everything if p[-1] == name), "find"
        found = rel(top.find(lambda p: p.name == name))
        assert found == sorted(p for p in everything if p == (name,)), "find"
        found = rel(top.find(lambda p: p.name == name, recursive=True, files=False))
        assert found == sorted(p for p in dirs if p[-1] == name), "find"


# ------------------------------------------------------- path algebra
SEGMENT = st.sampled_from(["a", "b", "cc", "d.txt", "..", ".", "", "a b", "x:y"])
RAW = st.tuples(B, st.lists(SEGMENT, min_size=1, max_size=6)).map(
    lambda v: ("/" if v[0] else "") + "/".join(v[1]).lstrip("/")
)


@check(quick=1500, thorough=30000)
@given(RAW, RAW, RAW)
def path_algebra(p1, p2, p3):
    rec.case((p1, p2, p3))
    a, b = localfs.Path("/base/" + p1), localfs.Path("/base/" + p2)
    for p, raw in ((a, p1), (b, p2)):
        exp = posixpath.normpath("/base/" + raw)
        exp = exp[1:] if exp.startswith("//") else exp
        assert p.path == exp == str(p) == p.location == p.uri
        assert p == exp and p == localfs.Path(exp) and hash(p) == hash(localfs.Path(exp))
        assert p.name == posixpath.basename(exp)
        assert p.parent == posixpath.dirname(exp)
        assert p.parent.path == p.directory.path
        assert p.root == "/"
        assert p.factory(p) is p
        if p != p.root:
            assert p.parent[p.name] == p
        ups = [q.path for q in p.iterup]
        assert ups[0] == p.path and ups[-1] == "/"
        assert all(posixpath.dirname(u) == v for u, v in zip(ups, ups[1:]))
        assert len(set(ups)) == len(ups) == len([s for s in exp.split("/") if s]) + 1
        assert bool(p)
    # relative paths
    rel = a.relpath(b.path)
    assert not posixpath.isabs(rel)
    assert a[rel] == b, (a, rel, b)
    assert a.isabs(b.path) and not a.isabs(rel)
    assert a.relpath(rel) == rel
    # joining
    j = a[p3]
    exp = posixpath.normpath(posixpath.join(a.path, p3))
    exp = exp[1:] if exp.startswith("//") else exp
    assert j == exp and a + p3 == j
    c = localfs.Path(a.path)
    c += p3
    assert c == j
    c = localfs.Path(a.path)
    c.append(p3)
    assert c == j
    assert a.abspath(p3) == a.parent[p3].path
    assert a.sibling(p3) == (localfs.Path(p3) if p3.startswith("/") else a.parent[p3])
    # common root
    common = a.common(b)
    assert common == b.common(a) == a.common(b.path)
    exp = posixpath.commonpath([a.path, b.path])
    assert common == exp
    assert (a.common(b) == a) == (a in list(b.iterup))
    assert a.relpath(a.path) == "."
    # ordering as strings
    assert (a < b) == (a.path < b.path) and (a >= b) == (a.path >= b.path)
    assert (a == b) == (a.path == b.path) and (a != b) == (a.path != b.path)
    assert (a > b) == (a.path > b.path) and (a <= b) == (a.path <= b.path)
    # other access mode, same location
    r = a.readonly()
    assert r == a and r.mode == "r" and a.mode == "a+"
    assert a.detach(mode="w").mode == "w" and a.detach(mode="w") == a
    assert a["x"].mode == "a+" and r["x"].mode == "r" and r.parent.mode == "r"


@check(quick=300, thorough=5000)
@given(
    st.sampled_from(["r", "r+", "w", "w+", "a", "a+"]),
    st.one_of(st.none(), st.sampled_from(["r", "r+", "w", "w+", "a", "a+"])), B, TEXT,
)
def open_modes(default, mode, exists, text):
    """The mode of a path restricts what opening it can do."""
    root = tempfile.mkdtemp()
    rec.case((default, mode, exists, text))
    try:
        with contained(root):
            fn = os.path.join(root, "f")
            if exists:
                with open(fn, "w") as f:
                    f.write("0123456789")
            p = localfs.Path(fn, mode=default)
            kw = {} if mode is None else {"mode": mode}
            wrote = False
            try:
                with p.open(**kw) as f:
                    assert p.isopen()
                    with p.open() as g:
                        assert g is f
                    if f.writable():
                        f.write(text)
                        wrote = True
            except fs.Missing:
                assert not exists
            assert not p.isopen()
            content = None
            if os.path.exists(fn):
                with open(fn) as f:
                    content = f.read()
            if default == "r":
                # never changes anything
                assert content == ("0123456789" if exists else None)
            elif default == "r+":
                # never creates or truncates
                assert (content is not None) == exists
                if exists:
                    assert content == (text + "0123456789"[len(text):] if wrote else "0123456789")
            elif default in ("a", "a+"):
                # never loses what was there
                if exists:
                    assert len(content) >= 10
                    if mode not in ("r", "r+"):
                        assert content == "0123456789" + text
                    elif mode == "r":
                        assert content == "0123456789"
                elif mode not in ("r", "r+"):
                    assert content == text
            else:
                if mode == "r":
                    assert content == ("0123456789" if exists else None)
                else:
                    assert content == text
    finally:
        shutil.rmtree(root, ignore_errors=True)


@check(quick=150, thorough=2000)
@given(st.integers(0, 0o777), TEXT)
def statistics(mode, text):
    root = tempfile.mkdtemp()
    rec.case((mode, text))
    try:
        with contained(root):
            p = localfs.Path(os.path.join(root, "f"))
            p.write(text)
            p.update_stats(mode=mode)
            assert os.stat(p.path).st_mode & 0o777 == mode
            assert p.get_stat("mode") & 0o777 == mode
            st_ = p.stats()
            real = os.stat(p.path)
            assert st_["size"] == real.st_size and st_["uid"] == real.st_uid
            assert abs(st_["mtime"].timestamp() - real.st_mtime) < 1e-3
            with p.openstats() as s:
                s["mode"] = 0o100644
            assert os.stat(p.path).st_mode & 0o777 == 0o644
    finally:
        shutil.rmtree(root, ignore_errors=True)
