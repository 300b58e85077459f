"""C14: NeXus bookkeeping against simple models."""
import os
import re
import json
import shutil
import tempfile
import h5py
import numpy as np
from vh import st, given, assume, check, rec, rule
from lib_contained import contained
from spectrocrunch.io import fs, nxfs, target
from spectrocrunch.patch import jsonpickle
from spectrocrunch.patch.pint import ureg

rule(
    "Histories of up to 10 process look-ups/creations over 3 entries with few names, parameters and "
    "predecessors (so that matches occur), and of up to 12 signal/axis manipulations of two data "
    "groups; the file content is compared after every operation. Non-trivial: at least one look-up "
    "matched an existing process; at least 4 manipulations were accepted."
)
B = st.booleans()


def content(filename):
    """All nodes of a file: values and attributes (except time stamps)"""
    out = {}

    def val(v):
        if isinstance(v, np.ndarray):
            return v.tolist()
        return v.decode() if isinstance(v, bytes) else v

    def attrs(n):
        return {k: val(v) for k, v in n.attrs.items() if k not in ("file_update_time", "file_time")}

    def walk(g, path):
        out[path or "/"] = ("group", attrs(g))
        for name in g:
            p = path + "/" + name
            lnk = g.get(name, getlink=True)
            if isinstance(lnk, h5py.SoftLink):
                out[p] = ("link", lnk.path)
            elif isinstance(lnk, h5py.ExternalLink):
                out[p] = ("link", lnk.filename, lnk.path)
            elif isinstance(g[name], h5py.Group):
                walk(g[name], p)
            elif name in ("date", "start_time", "end_time"):
                out[p] = ("time",)
            else:
                out[p] = ("data", val(g[name][()]), attrs(g[name]))

    if os.path.exists(filename):
        with h5py.File(filename, "r") as f:
            walk(f, "")
    return out


def time_added(a, b):
    """Nodes that only differ by the time of the last update"""
    return {k: v for k, v in b.items() if a.get(k) != v and not k.endswith("/end_time")}


# ------------------------------------------------------- processes
NAMES = ["fit", "fit.1", "xrf0001", "xrf0002", "a1b", "n(1)", "fit.x"]
PARAMS = [None, {}, {"a": 1}, {"a": 2}, {"a": 1, "b": [1, 2]}, {"b": [1, 2], "a": 1}, {"a": "1"}, {"c": {"a": 1}},
          {"a": None}, {"x": 1.5, "y": ["s", None, True]}]


def pkey(p):
    return json.dumps(p, sort_keys=True)


def matches(name, other):
    """The names are equal up to the last number"""
    nums = list(re.finditer("[0-9]+", name))
    if nums:
        m = nums[-1]
        head, tail = name[: m.start()], name[m.end():]
        mid = other[len(head): len(other) - len(tail)]
        return other.startswith(head) and other.endswith(tail) and mid.isdigit() and len(head) + len(tail) < len(other)
    if other == name:
        return True
    return other.startswith(name + ".") and other[len(name) + 1:].isdigit()


class Process(object):
    def __init__(self, entry, name, params, deps):
        self.entry, self.name, self.params, self.deps = entry, name, params, list(deps)

    @property
    def key(self):
        return (pkey(self.params),) + tuple(d.key for d in self.deps)

    @property
    def path(self):
        return "/%s/%s" % (self.entry, self.name)

    @property
    def sequence(self):
        return 1 + max([0] + [d.sequence for d in self.deps])


@check(quick=240, thorough=8000, shards={"quick": 5, "thorough": 8})
@given(st.data(), st.integers(4, 10))
def processes(data, nops):
    draw = data.draw
    root = tempfile.mkdtemp()
    filename = os.path.join(root, "f.h5")
    done, nfound = [], 0
    procs, entries = [], []
    try:
        nxroot = nxfs.Path("/", h5file=filename)
        for _ in range(nops):
            op = draw(st.sampled_from(["get"] * 6 + ["find", "entry", "remove", "result"]))
            before = content(filename)
            if op == "entry" or not entries:
                entry = nxroot.new_nxentry()
                exp = "entry%04d" % (1 + max([0] + [int(e[5:]) for e in entries]))
                assert entry.name == exp and entry.is_nxclass("NXentry")
                entries.append(entry.name)
                done.append("entry")
                after = content(filename)
                assert all(after[k] == v for k, v in before.items() if k != "/"), "existing nodes change"
                continue
            if op == "remove":
                free = [p for p in procs if not any(p in q.deps for q in procs)]
                if free:
                    p = draw(st.sampled_from(free))
                    nxfs.factory(filename + "::" + p.path).remove(recursive=True)
                    procs.remove(p)
                    done.append(("remove", p.path))
                    after = content(filename)
                    assert after == {k: v for k, v in before.items() if not (k + "/").startswith(p.path + "/")}
                continue
            if op == "result":
                if procs:
                    p = draw(st.sampled_from(procs))
                    res = nxfs.factory(filename + "::" + p.path).results
                    res["data%d" % len(done)].mkfile(data=draw(st.integers(0, 9)))
                    done.append(("result", p.path))
                continue
            entry = draw(st.sampled_from(entries))
            name = draw(st.sampled_from(NAMES[:4] * 2 + NAMES))
            params = draw(st.sampled_from(PARAMS))
            deps = draw(st.lists(st.sampled_from(procs), max_size=3)) if procs else []
            if procs and draw(st.integers(0, 2)) == 0:
                # repeat an existing one
                p = draw(st.sampled_from(procs))
                params, deps = p.params, list(p.deps)
                if draw(B):
                    name = p.name
            where = nxroot[entry]
            local = [p for p in procs if p.entry == entry]
            if local and draw(st.integers(0, 3)) == 0:
                where = nxfs.factory(filename + "::" + draw(st.sampled_from(local)).path)
            pdeps = [nxfs.factory(filename + "::" + d.path) for d in deps]
            new = Process(entry, name, params, deps)
            allentries = draw(B)
            usename = op == "get" or draw(B)
            same = [
                p for p in procs
                if p.key == new.key and (allentries or p.entry == entry) and (not usename or matches(name, p.name))
            ]
            nfound += bool(same)
            done.append((op, entry, name, pkey(params), [d.path for d in deps], allentries))
            if op == "find":
                got = where.find_nxprocess(
                    name=name if usename else None, parameters=params, dependencies=pdeps, searchallentries=allentries
                )
                assert content(filename) == before, "looking up changes the file"
                assert (got is not None) == bool(same)
                assert got is None or got.path in [p.path for p in same]
                continue
            noincrement = draw(st.integers(0, 3)) == 0
            names = [p.name for p in local]
            try:
                with contained(root):
                    got = where.nxprocess(
                        name, parameters=params, dependencies=pdeps, searchallentries=allentries,
                        noincrement=noincrement
                    )
            except fs.AlreadyExists:
                assert noincrement and name in names and not same
                assert content(filename) == before
                continue
            if same:
                assert got.path in [p.path for p in same], (got.path, [p.path for p in same])
                assert content(filename) == before, "looking up changes the file"
                continue
            assert got.parent.name == entry
            assert not (noincrement and name in names)
            assert got.name not in names, "existing process"
            if name not in names:
                assert got.name == name
            else:
                assert matches(name, got.name)
            assert got.is_nxclass("NXprocess")
            new.name = got.name
            procs.append(new)
            after = content(filename)
            changed = time_added(before, after)
            assert all((k + "/").startswith(new.path + "/") or k == "/" for k in changed), "other nodes changed"
            assert set(before) <= set(after)
        for p in procs:
            verify(filename, p)
        found = [p.path for p in nxroot.iter_nxprocess(searchallentries=True)]
        assert sorted(found) == sorted(p.path for p in procs)
        for e in entries:
            found = [p.path for p in nxroot[e].iter_nxprocess()]
            assert sorted(found) == sorted(p.path for p in procs if p.entry == e)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        rec.case(done, nontrivial=nfound > 0)
    rec.label("%d matched" % min(nfound, 3))


def verify(filename, p):
    proc = nxfs.factory(filename + "::" + p.path)
    assert proc.config.read() == p.params
    assert [d.linkdest().path for d in proc.dependencies] == [d.path for d in p.deps]
    assert proc.sequence_index == p.sequence
    assert proc.valid_checksum()
    assert proc["program"].read() == "spectrocrunch"
    assert proc.checksum == target.calc_checksum(
        [nxfs.factory(filename + "::" + d.path) for d in p.deps], p.params
    )


# ------------------------------------------------------- data groups
SIGNALS = ["Fe-K", "Si-K", "S-K", "x1"]
UNITS = [None, "um", "mm", "keV", "dimensionless", "nm"]


@check(quick=250, thorough=8000, shards={"quick": 5, "thorough": 8})
@given(st.data(), st.integers(6, 13))
def datagroups(data, nops):
    draw = data.draw
    root = tempfile.mkdtemp()
    filename = os.path.join(root, "f.h5")
    done, nok = [], 0
    try:
        nxroot = nxfs.Path("/", h5file=filename)
        entry = nxroot.nxentry("entry0001")
        inprocess = draw(B)
        parent = entry.nxprocess("fit", parameters={"a": 1}).results if inprocess else entry.nxsubentry("sub")
        shape = tuple(draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)))
        groups = [parent.nxdata("data1"), parent.nxdata("data2")]
        model = [dict(signal=None, aux=[], axes=[], values={}) for _ in groups]
        positioners = {}
        for _ in range(nops):
            i = draw(st.sampled_from([0, 0, 1]))
            g, m = groups[i], model[i]
            existing = ([m["signal"]] if m["signal"] else []) + m["aux"]
            if draw(st.integers(0, 5)) == 0:
                # another handle
                groups[i] = g = nxfs.factory(str(g))
            op = draw(st.sampled_from(["add", "add", "add", "addpath" if i else "axes", "remove", "default", "mark", "sort", "axes"]))
            name = draw(st.sampled_from(SIGNALS))
            if op in ("remove", "default", "mark") and existing and draw(st.integers(0, 4)):
                name = draw(st.sampled_from(existing))
            if op == "add":
                wrong = draw(st.integers(0, 5)) == 0
                sh = shape + (1,) if wrong else shape
                value = np.arange(int(np.prod(sh)), dtype=draw(st.sampled_from(["f4", "i2", "f8"]))).reshape(sh)
                value = value + draw(st.integers(0, 50))
                title = draw(st.sampled_from([None, "title", "é"]))
                units = draw(st.sampled_from([None, "mm", "counts"]))
                interp = draw(st.sampled_from([None, "image", "spectrum"]))
                known = (len(existing) > 0 or m["axes"]) and wrong
                before = content(filename)
                try:
                    if draw(B):
                        out = g.add_signal(name=name, data=value, title=title, units=units, interpretation=interp)
                    else:
                        out = g.add_signal(name=name, shape=sh, dtype=value.dtype, title=title, units=units,
                                           interpretation=interp)
                        with out.open() as dset:
                            dset[()] = value
                except nxfs.NexusFormatException:
                    assert known
                    assert content(filename) == before
                    continue
                except fs.AlreadyExists:
                    assert name in existing and not known
                    assert content(filename) == before
                    continue
                assert name not in existing and not known
                if not existing and not m["axes"] and wrong:
                    # first signal defines the shape
                    g.remove_signal(name)
                    check_group(g, m, shape)
                    continue
                assert out == g[name]
                if m["signal"]:
                    m["aux"].append(m["signal"])
                m["signal"] = name
                if interp is None:
                    interp = "spectrum" if len(shape) == 1 else "image"
                m["values"][name] = (value, title or name, units, interp)
            elif op == "addpath":
                if i == 0 or not model[0]["values"]:
                    continue
                name = draw(st.sampled_from(sorted(model[0]["values"])))
                if name in existing or draw(st.integers(0, 3)) == 0:
                    # other name
                    new = draw(st.sampled_from(["l1", "l2"]))
                else:
                    new = None
                if (new or name) in existing:
                    continue
                out = g.add_signal(name=new, path=groups[0][name])
                assert out.name == (new or name) and out.linkdest() == groups[0][name]
                if m["signal"]:
                    m["aux"].append(m["signal"])
                m["signal"] = new or name
                m["values"][new or name] = model[0]["values"][name]
            elif op == "remove":
                if name not in existing:
                    continue
                if i == 0 and any(v is m["values"][name] for v in model[1]["values"].values()):
                    continue
                g.remove_signal(name)
                m["values"].pop(name)
                if name == m["signal"]:
                    m["signal"] = m["aux"].pop() if m["aux"] else None
                else:
                    m["aux"].remove(name)
            elif op == "default":
                before = content(filename)
                assert g.default_signal(name) == (name in existing)
                if name not in existing:
                    assert content(filename) == before
                    continue
                if name != m["signal"]:
                    m["aux"] = [m["signal"]] + [s for s in m["aux"] if s != name]
                    m["signal"] = name
            elif op == "mark":
                if name not in existing:
                    continue
                g[name].mark_default()
                if name != m["signal"]:
                    m["aux"] = [m["signal"]] + [s for s in m["aux"] if s != name]
                    m["signal"] = name
                assert g.default.path == g.path, "default plot"
                assert nxfs.Path("/", h5file=filename).default.path == g.path
            elif op == "sort":
                if not existing:
                    continue
                other, om = groups[1 - i], model[1 - i]
                oexisting = ([om["signal"]] if om["signal"] else []) + om["aux"]
                if draw(B):
                    g.sort_signals()
                    m["signal"], m["aux"] = sorted(existing)[0], sorted(existing)[1:]
                else:
                    g.sort_signals(other=other)
                    if sorted(existing) == sorted(oexisting):
                        m["signal"], m["aux"] = oexisting[0], oexisting[1:]
            else:
                axes, ok, newaxes = [], True, {}
                for k, n in enumerate(shape):
                    aname = draw(st.sampled_from(["ax%d" % k, "ax%d" % k, "ay%d" % k]))
                    kind = draw(st.sampled_from(["values", "values", "quantity", "name", "path"]))
                    start = draw(st.sampled_from([0, 0, 0, 5]))
                    size = n + (draw(st.integers(0, 9)) == 0)
                    vals = np.arange(start, start + size) * 0.5
                    unit = draw(st.sampled_from(UNITS))
                    title = draw(st.sampled_from([None, "vertical axis"]))
                    old = positioners.get(aname)
                    if kind == "name":
                        axes.append(aname)
                        ok &= old is not None and len(old[0]) == n
                        new = old
                    elif kind == "path":
                        src = parent[parent.nonexisting_name("src")].mkfile(data=vals, attributes={"units": "mm"})
                        axes.append((aname, src, None))
                        new = (vals, "mm", None, src)
                        ok &= size == n and (old is None or np.array_equal(old[0], vals))
                        new = old or new
                    else:
                        if kind == "quantity":
                            value, attr = ureg.Quantity(vals, unit or "dimensionless"), {}
                        else:
                            value, attr = vals, ({} if unit is None else {"units": unit})
                            if draw(B):
                                value = list(vals)
                        if title:
                            attr["title"] = title
                        axes.append((aname, value, attr or draw(st.sampled_from([None, {}]))))
                        u = unit or "dimensionless"
                        ok &= size == n or not existing
                        if old is not None:
                            ou = old[1] or "dimensionless"
                            if kind == "values" and unit is None:
                                match = np.array_equal(old[0], vals)
                            else:
                                match = ureg.Unit(u).dimensionality == ureg.Unit(ou).dimensionality
                                match = match and np.array_equal(ureg.Quantity(vals, u).to(ou).magnitude, old[0])
                            ok &= bool(match)
                            new = old
                        else:
                            new = (vals, unit, title, None)
                    if new is not None:
                        newaxes[aname] = new
                if not existing:
                    # anything goes without data, but then the shape may be wrong
                    sizes = [len(newaxes[a[0] if isinstance(a, tuple) else a][0])
                             if (a[0] if isinstance(a, tuple) else a) in newaxes else -1 for a in axes]
                    if sizes != list(shape):
                        continue
                try:
                    g.set_axes(*axes)
                except (nxfs.NexusFormatException, ValueError, fs.FileSystemException) as e:
                    assert not ok, "%r: %r" % (axes, e)
                    # part of the axes may be added
                    pos = g.positioners()
                    for aname, v in newaxes.items():
                        if pos[aname].exists:
                            positioners.setdefault(aname, v)
                    check_group(g, m, shape)
                    continue
                assert ok, "axes not refused"
                positioners.update(newaxes)
                m["axes"] = [a[0] if isinstance(a, tuple) else a for a in axes]
            nok += 1
            done.append((i, op, name, m["signal"], tuple(m["axes"])))
            check_group(groups[i], model[i], shape)
            if op == "axes":
                check_axes(groups[i], model[i], positioners)
        for g, m in zip(groups, model):
            check_group(g, m, shape)
            check_axes(g, m, positioners)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        rec.case(done, nontrivial=nok > 3)
    for _, op, _, _, _ in done:
        rec.label(op)


def check_group(g, m, shape):
    with h5py.File(g.device.path, "r") as f:
        attrs = dict(f[g.path].attrs)
        names = set(f[g.path])
    existing = ([m["signal"]] if m["signal"] else []) + m["aux"]
    assert attrs.get("signal") == m["signal"], "default signal"
    assert [str(s) for s in attrs.get("auxiliary_signals", [])] == m["aux"], "other signals"
    assert set(existing) <= names
    assert (g.signal.name if g.signal else None) == m["signal"]
    assert [s.name for s in g.signals] == existing
    assert [s.name for s in g.auxiliary_signals] == m["aux"]
    for name in existing:
        value, title, units, interp = m["values"][name]
        node = g[name]
        assert np.array_equal(node.read(), value) and node.dtype == value.dtype
        assert node.get_stat("long_name") == title
        assert node.get_stat("units") == units
        assert node.get_stat("interpretation") == interp
    if existing:
        value = m["values"][m["signal"]][0]
        assert g.shape == shape == value.shape and g.ndim == len(shape) and g.size == value.size
        assert g.dtype == value.dtype
        interp = m["values"][m["signal"]][3]
        assert g.interpretation == interp
        assert g.stackdim() == (len(shape) - 1 if interp == "spectrum" else 0)
    else:
        assert g.shape == () and g.dtype is None


def check_axes(g, m, positioners):
    axes = g.axes
    assert [a[0] for a in axes] == m["axes"]
    assert g.axes_shape == tuple(len(positioners[a][0]) for a in m["axes"])
    for name, values, attrs in axes:
        vals, unit, title, src = positioners[name]
        assert np.array_equal(values.magnitude, vals)
        assert values.units == ureg.Unit(unit or "dimensionless"), (name, values, unit)
        if src is None:
            if title is None:
                assert attrs["title"].startswith(name)
            else:
                assert attrs["title"] == title
        pos = g.positioners()
        got = pos.get_axis(name)
        assert np.array_equal(got.magnitude, vals) and got.units == ureg.Unit(unit or "dimensionless")
        assert pos.axis_size(name) == len(vals)


# ------------------------------------------------------- notes and values
TEXT = st.text(st.characters(blacklist_characters="\0", blacklist_categories=("Cs",)), max_size=10)
JSON = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-10**9, 10**9), st.floats(allow_nan=False, allow_infinity=False), TEXT),
    lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(TEXT, s, max_size=3)), max_leaves=8,
)


@check(quick=100, thorough=5000)
@given(JSON, TEXT, st.sampled_from(["json", "jsonpickle"]))
def notes(value, text, typ):
    root = tempfile.mkdtemp()
    rec.case((value, text, typ), nontrivial=isinstance(value, (list, dict)))
    try:
        filename = os.path.join(root, "f.h5")
        entry = nxfs.Path("/", h5file=filename).nxentry("entry0001")
        a, b = entry.nxnote("a"), entry.nxnote("b")
        a.write(value, typ=typ)
        b.write(text)
        a, b = nxfs.factory(str(a)), nxfs.factory(str(b))
        assert a.read() == value and type(a.read()) is type(value)
        assert b.read() == text and b.mimetype.startswith("text/plain")
        try:
            a.write(text)
        except fs.AlreadyExists:
            pass
        else:
            assert False, "a note is overwritten"
        assert a.read() == value
        if isinstance(value, (list, dict)):
            assert json.loads(a.read(parse=False)) is not None
        proc = entry.nxprocess("p", parameters={"v": value})
        assert proc.config.read() == {"v": value} and proc.valid_checksum()
        assert entry.nxprocess("p", parameters={"v": value}) == proc
    finally:
        shutil.rmtree(root, ignore_errors=True)


@check(quick=200, thorough=4000)
@given(st.lists(st.floats(-1e6, 1e6), min_size=1, max_size=4), st.sampled_from(["mm", "um", "keV", "s", "1/s"]),
       st.sampled_from([None, "mm", "um", "eV"]), st.sampled_from(["keV", "eV"]))
def quantities(values, unit, tounit, eunit):
    root = tempfile.mkdtemp()
    rec.case((values, unit, tounit, eunit))
    try:
        filename = os.path.join(root, "f.h5")
        entry = nxfs.Path("/", h5file=filename).nxentry("entry0001")
        q = ureg.Quantity(np.array(values), unit)
        attrs = {"a": 1}
        if tounit is not None and ureg.Unit(tounit).dimensionality != ureg.Unit(unit).dimensionality:
            try:
                entry["q"].mkfile(data=q, units=tounit)
            except Exception:
                assert not entry["q"].exists
            else:
                assert False, "incompatible units"
            tounit = None
        entry["q"].mkfile(data=q, units=tounit, attributes=attrs)
        assert attrs == {"a": 1}
        entry["plain"].mkfile(data=np.array(values), attributes=attrs)
        assert entry["plain"].stats() == {"a": 1}
        got = ureg.Quantity(entry["q"].read(), entry["q"].get_stat("units"))
        assert np.allclose(got.to(unit).magnitude, values, rtol=1e-12, atol=0)
        if tounit is not None:
            assert got.units == ureg.Unit(tounit)
        mono = entry.nxmonochromator()
        mono.energy = ureg.Quantity(abs(values[0]), eunit)
        mono = nxfs.factory(str(mono))
        assert np.isclose(mono.energy.to(eunit).magnitude, abs(values[0]), rtol=1e-12, atol=0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------- structure
@check(quick=150, thorough=3000)
@given(st.lists(st.sampled_from(["entry", "named", "sub", "data", "note", "instrument", "detector", "measurement",
                                 "application", "collection", "positioners", "wrong"]), min_size=2, max_size=8), st.data())
def structure(ops, data):
    """Getting a node with a class creates it once and never changes its class"""
    root = tempfile.mkdtemp()
    rec.case(ops, nontrivial=len(set(ops)) > 2)
    try:
        filename = os.path.join(root, "f.h5")
        nxroot = nxfs.Path("/", h5file=filename).nxroot()
        classes = {}
        entry = nxroot.nxentry("e1")
        classes[entry.path] = "NXentry"
        apps = {}
        for op in ops:
            n = "n%d" % data.draw(st.integers(0, 2))
            before = content(filename)
            path = nxclass = None
            try:
                if op == "entry":
                    path, nxclass = nxroot.new_nxentry(), "NXentry"
                    assert path.path not in classes
                elif op == "named":
                    path, nxclass = nxroot.nxentry(n), "NXentry"
                    assert path.path == "/" + n
                elif op == "sub":
                    path, nxclass = entry.nxsubentry(n), "NXsubentry"
                elif op == "data":
                    path, nxclass = entry.nxdata(n), "NXdata"
                elif op == "note":
                    path, nxclass = entry.nxnote(n), "NXnote"
                elif op == "collection":
                    path, nxclass = entry.nxcollection(n), "NXcollection"
                elif op == "instrument":
                    path, nxclass = entry.nxinstrument(), "NXinstrument"
                elif op == "detector":
                    path, nxclass = entry.nxdetector(n), "NXdetector"
                elif op == "measurement":
                    path, nxclass = entry.measurement(), "NXcollection"
                elif op == "positioners":
                    path, nxclass = entry.positioners(), "NXcollection"
                elif op == "application":
                    files = {"extra": 5}
                    path, nxclass = entry.application(n, definition="def" + n, nxfiles=files), "NXsubentry"
                    assert files == {"extra": 5}
                    if path.path not in classes:
                        apps[path.path] = "def" + n
                        assert path["extra"].read() == 5
                else:
                    nxroot.nxdata("x")
                    assert False, "not allowed"
            except (fs.AlreadyExists, nxfs.NexusFormatException):
                assert op == "wrong" or path is None
                clash = classes.get("/e1/" + n)
                assert op == "wrong" or clash is not None
                assert content(filename) == before
                continue
            assert path.exists and path.nxclass == nxclass
            assert classes.setdefault(path.path, nxclass) == nxclass
            after = content(filename)
            changed = time_added(before, after)
            assert all(
                (k + "/").startswith(path.path + "/") or k in ("/", "/e1/instrument", "/e1/end_time") for k in changed
            ), changed
            if path.path in before:
                assert after == before
        for p, c in classes.items():
            assert nxfs.factory(filename + "::" + p).nxclass == c
        assert sorted(e.path for e in nxroot.iter_nxentry()) == sorted(p for p, c in classes.items() if c == "NXentry")
        assert sorted(a.path for a in nxroot.iter_application(searchallentries=True)) == sorted(apps)
        for p, d in apps.items():
            assert nxfs.factory(filename + "::" + p)["definition"].read() == d
            found = nxroot.find_application(definition=d)
            assert apps[found.path] == d
            assert nxroot.find_application(entryname="nothing", definition=d) is None
        sub = entry["x/y/z"]
        assert sub.nxentry() == entry and sub.findfirstup_is_nxclass("NXentry") == entry
    finally:
        shutil.rmtree(root, ignore_errors=True)


NAME = st.text("ab.(_", min_size=1, max_size=4)


@check(quick=1500, thorough=20000)
@given(NAME, st.integers(0, 99999), st.integers(0, 6), st.sampled_from(["", "_x", ".h"]), st.integers(1, 30), B)
def names(head, num, width, tail, add, plain):
    """Numbered names"""
    name = head if plain else head + "%0*d" % (width, num) + tail
    rec.case(name, nontrivial=not plain)
    n = target.Name(name)
    if plain:
        assert str(n) == name + ".1" == target.prepare(name)
        assert target.increment(name) == name + ".1"
    else:
        assert str(n) == name == target.prepare(name)
        exp = head + "%0*d" % (max(width, len(str(num))), num + add) + tail
        assert str(n + add) == exp == target.increment(name, add=add)
    seen = [str(n)]
    for _ in range(5):
        n += 1
        seen.append(str(n))
    assert len(set(seen)) == 6
    match = target.match(name)
    assert match(name) and all(match(s) for s in seen) and n.matchfunc(seen[0])
    assert not match("x" + name) and not match(name + "x")
    n.lock()
    s = str(n)
    n += 1
    assert str(n) == s
    n.unlock()
    n += 1
    assert str(n) != s
    n.reset()
    assert str(n) == seen[0]
