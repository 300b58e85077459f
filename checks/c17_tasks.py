"""C17: tasks are idempotent and atomic."""
import os
import sys
import types
import signal
import logging
import tempfile
import h5py
import numpy as np
from vh import st, given, assume, check, rec, rule
from lib_h5 import content, diff
from spectrocrunch.io import nxfs, target
from spectrocrunch.process import (
    utils, basetask, nxprocess, nxregulargrid, nxcrop, nxreplace, nxminlog, nxexpression, nxresult, nxutils, nxwrap, nxprocesswrap,
)

logging.getLogger("spectrocrunch").setLevel(logging.CRITICAL)
rule(
    "Histories of up to 6 task runs (crop, replace, minus-log, expression; few parameter values so that "
    "repetitions occur) on the raw data or the result of an earlier task, undisturbed, with a failure "
    "injected in the n-th call of the task or file code, ended by a signal or racing with an equal task; "
    "the file content is compared after every run. Non-trivial: a repeated run, a failure that was "
    "reached, or two different results."
)
B = st.booleans()
_base = {}


def base():
    """Raw data (file content)"""
    if not _base:
        f = os.path.join(tempfile.mkdtemp(), "data.h5")
        entry = nxfs.Path("/", h5file=f).nxroot().new_nxentry()
        rng = np.random.RandomState(5)
        for name in ("raw.1", "raw.2"):
            p = entry.nxprocess(name, parameters={"name": "raw", "a": name}, dependencies=None)
            for g, names in (("detector00", ["Fe-K"]), ("counters", ["arr_iodet"])):
                nd = p.results.nxdata(g).mkdir()
                for n in names:
                    x = rng.randint(1, 9, (2, 3, 2)).astype(float)
                    nd.add_signal(n, data=x)
                nd.set_axes(("x", range(2), None), ("y", range(3), {"units": "um", "title": "h"}), ("z", range(2), {"units": "um", "title": "v"}))
        with open(f, "rb") as fh:
            _base["bytes"] = fh.read()
    return _base["bytes"]


def read(f):
    with open(f, "rb") as fh:
        return fh.read()


class Fault(Exception):
    pass


def _codes():
    """Code objects of the task and file code"""
    out = {"process": set(), "nxfs": set()}

    def add(code, key):
        out[key].add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c, key)

    def scan(ns, key, mod):
        for v in list(vars(ns).values()):
            v = getattr(v, "__wrapped__", v)
            if isinstance(v, property):
                fs = [v.fget, v.fset]
            elif isinstance(v, (classmethod, staticmethod)):
                fs = [v.__func__]
            elif isinstance(v, type) and v.__module__ == mod.__name__ and v is not ns:
                scan(v, key, mod)
                continue
            else:
                fs = [v]
            for f in fs:
                f = getattr(f, "__wrapped__", f)
                if isinstance(f, types.FunctionType) and f.__module__ == mod.__name__:
                    add(f.__code__, key)

    for mod in (basetask, nxprocess, nxregulargrid, nxcrop, nxreplace, nxminlog, nxexpression, nxresult):
        scan(mod, "process", mod)
    scan(nxfs, "nxfs", nxfs)
    return out


CODES = _codes()
EXIT = {"_atomic_context_exit", "_remove_temp_output", "_rename_temp_output"}
TOOL = 4


class inject(object):
    """Do something in the n-th call (not while finishing)"""

    def __init__(self, where, n, action):
        self.codes, self.n, self.action = CODES[where], n, action
        self.count, self.fired = 0, None

    def callback(self, code, offset):
        self.count += 1
        if self.fired is None and self.count >= self.n:
            frame = sys._getframe(1)
            inrun = False
            while frame is not None:
                if frame.f_code.co_name in EXIT:
                    return
                if frame.f_code.co_name == "__enter__" and "signalhandling" in frame.f_code.co_filename or frame.f_code.co_name == "_execute":
                    inrun = True
                frame = frame.f_back
            if not inrun:
                return
            self.fired = code.co_qualname
            self.action()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "inject")
        m.register_callback(TOOL, m.events.PY_START, self.callback)
        for c in self.codes:
            m.set_local_events(TOOL, c, m.events.PY_START)
        return self

    def __exit__(self, *args):
        m = sys.monitoring
        for c in self.codes:
            m.set_local_events(TOOL, c, 0)
        m.register_callback(TOOL, m.events.PY_START, None)
        m.free_tool_id(TOOL)


PARAMS = st.one_of(
    st.fixed_dictionaries({"method": st.just("replace"), "old": st.sampled_from([1, 2]), "new": st.sampled_from([-1, -2])}, optional={"sliced": B}),
    st.fixed_dictionaries({"method": st.just("minlog")}, optional={"sliced": B, "name": st.sampled_from(["minlog", "other"])}),
    st.fixed_dictionaries({"method": st.just("minlog"), "skip": st.just([{"method": "regex", "pattern": "arr_.*"}])}),
    st.fixed_dictionaries(
        {"method": st.just("crop"), "reference": st.just("Fe-K"), "roi": st.sampled_from([[[0, 2], [0, 2]], [[0, 2], [1, 2]], [[1, 3], [0, 2]]])},
        optional={"default": st.sampled_from(["Fe-K", "arr_iodet"])},
    ),
    st.fixed_dictionaries(
        {"method": st.just("expression"), "expression": st.sampled_from(["{}*2", "{}/{arr_iodet}", "1+2", "{}+unknown("])},
        optional={"sliced": B},
    ),
)
# not a parameter of the task
UNKNOWN = st.sampled_from([{}, {}, {}, {"unknownparameter": 3}])


def normalized(params):
    p = dict(params)
    p.setdefault("name", p["method"])
    p.setdefault("default", None)
    p.setdefault("sliced", False)
    p.setdefault("stackdim", 0)
    p.setdefault("skip", [])
    if p["method"] == "expression":
        p.setdefault("copy", [])
    p.pop("unknownparameter", None)
    return repr(sorted(p.items()))


def fails(params, isvalid):
    return params["method"] == "expression" and params["expression"] == "1+2" or (
        params["method"] == "expression" and params["expression"].endswith("unknown(")
    )


@st.composite
def histories(draw):
    n = draw(st.integers(2, 5))
    ops = []
    for _ in range(n):
        if ops and draw(st.sampled_from([True, True, False])):
            prev = draw(st.sampled_from(ops))
            params, dep = dict(prev[0]), prev[1]
            if draw(B):
                dep = draw(st.integers(0, 4))
        else:
            params, dep = draw(PARAMS), draw(st.integers(0, 4))
        params = dict(params, **draw(UNKNOWN))
        where = draw(st.sampled_from(["process", "process", "nxfs"]))
        how = draw(st.sampled_from(["run", "run", "run", "fault", "fault", "fault", "signal", "race"]))
        num = draw(st.integers(1, 60) if where == "process" else st.integers(1, 4000))
        deptype = draw(st.sampled_from(["task", "path", "list"]))
        sig = draw(st.sampled_from(["SIGTERM", "SIGINT", "SIGHUP"]))
        ops.append((params, dep, how, where, num, deptype, sig))
    return ops


def subtree(c, path):
    return {k: v for k, v in c.items() if k == path or k.startswith(path + "/")}


def processes(c):
    return sorted(k.split("/")[2] for k, v in c.items() if k.count("/") == 2 and v[0] == "group")


@check(quick=48, thorough=1500, shards={"quick": 8, "thorough": 24})
@given(histories())
def atomic(ops):
    f = os.path.join(tempfile.mkdtemp(), "data.h5")
    with open(f, "wb") as fh:
        fh.write(base())
    results = {}  # key: name
    interesting = False
    names = ["raw.1", "raw.2"]
    chain = {"raw.1": "raw.1", "raw.2": "raw.2"}
    trace = []
    for params, dep, how, where, num, deptype, sig in ops:
        name = names[dep % len(names)]
        deppath = nxfs.Path("/entry0001/" + name, h5file=f)
        deppath = nxfs.factory(deppath) if hasattr(nxfs, "factory") else deppath

        def dependency():
            p = nxfs.factory(str(deppath)) if deptype == "path" else deppath
            if deptype == "task":
                return utils.nxpathtotask(p)
            return [p] if deptype == "list" else p

        key = (normalized(params), chain[name])
        before = content(f)
        trace.append((params, name, how, where, num, sig))
        rec.current = repr(trace)
        task = utils.create_task(dependencies=dependency(), **params)
        assert task.done == (key in results), (key, results)
        if key in results:
            # the result is there
            interesting = True
            rec.label("repeated")
            for t in (task, utils.create_task(dependencies=dependency(), **params)):
                t.run()
                assert t.done and t.output.name == results[key]
                assert diff(before, content(f)) == [], diff(before, content(f))
            again = utils.nxpathtotask(task.output)
            assert again.done and again.checksum == task.checksum
            again.run()
            assert diff(before, content(f)) == []
            continue
        raw = read(f)
        fired = None
        if how == "fault":

            def action():
                raise Fault()

            with inject(where, num, action) as inj:
                try:
                    task.run()
                except Fault:
                    pass
            fired = inj.fired
        elif how == "signal":
            pid = os.fork()
            if pid == 0:
                try:
                    for s in ("SIGTERM", "SIGHUP"):
                        signal.signal(getattr(signal, s), signal.SIG_DFL)
                    signal.signal(signal.SIGINT, signal.default_int_handler)
                    with inject(where, num, lambda: os.kill(os.getpid(), getattr(signal, sig))) as inj:
                        try:
                            task.run()
                        except BaseException:
                            pass
                    # like the HDF5 library on exit
                    for fid in h5py.h5f.get_obj_ids(types=h5py.h5f.OBJ_FILE):
                        h5py.h5f.flush(fid)
                    os._exit(7 if inj.fired else 0)
                finally:
                    os._exit(9)
            _, status = os.waitpid(pid, 0)
            if os.WIFSIGNALED(status):
                assert os.WTERMSIG(status) == getattr(signal, sig), status
                fired = sig
            else:
                assert os.WEXITSTATUS(status) in (0, 7), status
                fired = sig if os.WEXITSTATUS(status) == 7 else None
        elif how == "race":

            def action():
                utils.create_task(dependencies=dependency(), **params).run()

            with inject("process", num, action) as inj:
                task.run()
            if inj.fired:
                rec.label("race")
                interesting = True
        else:
            task.run()
        after = content(f)
        if fired:
            rec.label(how + "_" + where)
            interesting = True
            ok = processes(after) != processes(before) or task.done
            if not ok:
                assert diff(before, after) == [], (fired, diff(before, after))
                assert not task.done
                assert not utils.create_task(dependencies=dependency(), **params).done
                # same as an undisturbed run
                again = utils.create_task(dependencies=dependency(), **params)
                again.run()
                after = content(f)
                task = again
            elif how == "signal":
                task = utils.create_task(dependencies=dependency(), **params)
        cropped = params["method"] == "crop" and "crop" in repr(chain[name])
        if fails(params, True) or (cropped and not task.done):
            rec.label("invalid")
            assert not task.done
            assert diff(before, after) == [], diff(before, after)
            continue
        assert task.done and task.output.exists, (fired, set(processes(after)) - set(processes(before)))
        new = set(processes(after)) - set(processes(before))
        assert new == {task.output.name}, (new, task.output)
        out = task.output.name
        assert out.startswith(params.get("name", params["method"]) + ".")
        # earlier results are intact
        for p in processes(before):
            a, b = subtree(before, "/entry0001/" + p), subtree(after, "/entry0001/" + p)
            assert diff(a, b) == [], (out, p, diff(a, b))
        # nothing else changed
        others = [k for k in diff(before, after) if not k.startswith("/entry0001/" + out)]
        assert set(others) <= {"/", "/entry0001"}, others
        assert task.output.checksum == task.checksum and task.output.valid_checksum()
        if fired or how == "race":
            # undisturbed run on a copy
            d = tempfile.mkdtemp()
            g = os.path.join(d, "data.h5")
            with open(g, "wb") as fh:
                fh.write(raw)
            p = nxfs.factory(nxfs.Path("/entry0001/" + name, h5file=g))
            ref = utils.create_task(dependencies=p, **params)
            ref.run()
            ref = content(g)
            assert diff(ref, after) == [], (fired, diff(ref, after))
        results[key] = out
        names.append(out)
        chain[out] = key
        interesting |= len(results) > 1
    rec.case(key=trace, nontrivial=interesting)
    assert os.listdir(os.path.dirname(f)) == ["data.h5"]


# ------------------------------------------------------- tasks with local files
class ScriptTask(nxprocess.Task):
    """Generated output in the file and in the directory of the file"""

    def _parameters_defaults(self):
        super(ScriptTask, self)._parameters_defaults()
        self.required_parameters |= {"script"}
        self.optional_parameters |= {"opt"}

    def _execute(self):
        for op in self.parameters["script"]:
            if op[0] == "data":
                self.temp_nxresults[op[1]].mkfile(data=np.array(op[2]))
            elif op[0] == "signal":
                nxdata = self.temp_nxresults.nxdata(op[1])
                nxdata.add_signal("s", data=np.array(op[2]))
            elif op[0] == "file":
                path = os.path.join(self.temp_localpath.path, op[1])
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as fh:
                    fh.write(str(op[2]))
            elif op[0] == "fail" and FAIL[0]:
                raise {"error": ValueError, "exit": SystemExit, "interrupt": KeyboardInterrupt}[op[1]]()


FAIL = [True]
VALUES = st.lists(st.integers(-5, 5), min_size=1, max_size=3)
SCRIPT = st.lists(
    st.one_of(
        st.tuples(st.just("data"), st.sampled_from(["a", "b"]), VALUES),
        st.tuples(st.just("signal"), st.sampled_from(["n1", "n2"]), VALUES),
        st.tuples(st.just("file"), st.sampled_from(["x.txt", "sub/x.txt", "y.txt"]), VALUES),
        st.tuples(st.just("fail"), st.sampled_from(["error", "exit", "interrupt"])),
    ),
    max_size=4,
    unique_by=lambda op: op[1],
).map(lambda ops: [list(op) for op in ops])
SRUN = st.fixed_dictionaries(
    {"script": SCRIPT, "name": st.sampled_from(["t", "u", "t.2"])}, optional={"opt": st.integers(0, 1), "junk": st.integers(0, 3)}
)


@st.composite
def scripts(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if ops and draw(B):
            params, dep = draw(st.sampled_from(ops))[:2]
            if draw(B):
                params = dict(params, **draw(st.sampled_from([{"opt": 0}, {"opt": 1}, {"junk": 1}, {"name": "u"}])))
            if draw(st.sampled_from([False, False, True])):
                dep = draw(st.integers(0, 5))
        else:
            params, dep = draw(SRUN), draw(st.integers(0, 5))
        ops.append((params, dep, draw(B), draw(st.sampled_from(["none", "none", "none", "stale"]))))
    return ops


def localtree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), root)] = None
        for n in files:
            if n != "data.h5":
                with open(os.path.join(d, n)) as fh:
                    out[os.path.relpath(os.path.join(d, n), root)] = fh.read()
    return out


def under(tree, name):
    return {k: v for k, v in tree.items() if k == name or k.startswith(name + os.sep)}


@check(quick=96, thorough=4000, shards={"quick": 8, "thorough": 16})
@given(scripts())
def scripted(ops):
    root = tempfile.mkdtemp()
    f = os.path.join(root, "data.h5")
    entry = nxfs.Path("/", h5file=f).nxroot().new_nxentry()
    names = [None]
    chain = {None: None}
    results = {}
    interesting = False
    trace = []
    for params, dep, retry, stale in ops:
        name = names[dep % len(names)]
        kw = {"outputparent": entry} if name is None else {"dependencies": nxfs.factory(entry[name])}
        key = repr((sorted((k, v) for k, v in params.items() if k != "junk"), chain[name]))
        trace.append((params, name, retry))
        rec.current = repr(trace)

        def create():
            return utils.create_task(method="script", _task=ScriptTask, **dict(params, **kw))

        before, lbefore = content(f), localtree(root)
        task = create()
        assert task.done == (key in results)
        task.run()
        after, lafter = content(f), localtree(root)
        if key in results:
            interesting = True
            assert task.done and task.output.name == results[key]
            assert diff(before, after) == [] and lbefore == lafter
            continue
        if any(op[0] == "fail" for op in params["script"]):
            # nothing is visible
            interesting = True
            rec.label("failed")
            assert not task.done and not create().done
            assert diff(before, after) == [], diff(before, after)
            assert lbefore == lafter, (lbefore, lafter)
            if not retry:
                continue
            if stale == "stale":
                # directory of a result that was deleted
                d = os.path.join(root, "entry0001_" + task.output.name)
                os.makedirs(d)
                with open(os.path.join(d, "old.txt"), "w") as fh:
                    fh.write("old")
                lbefore = localtree(root)
            try:
                FAIL[0] = False
                task = create()
                task.run()
            finally:
                FAIL[0] = True
            after, lafter = content(f), localtree(root)
        assert task.done and create().done, trace
        new = set(processes(after)) - set(processes(before))
        assert new == {task.output.name}, (new, task.output)
        out = task.output.name
        # results
        for k in diff(before, after):
            assert k.startswith("/entry0001/" + out) or k in ("/", "/entry0001"), k
        res = nxfs.factory(entry[out]).results
        expected = set()
        for op in params["script"]:
            if op[0] == "data":
                assert res[op[1]].read().tolist() == op[2]
            elif op[0] == "signal":
                assert res[op[1]]["s"].read().tolist() == op[2]
            if op[0] in ("data", "signal"):
                expected.add(op[1])
        have = {k.split("/")[4] for k in after if k.startswith("/entry0001/%s/results/" % out)}
        assert have == expected, (have, expected)
        # local files
        ldir = "entry0001_" + out
        files = {os.path.join(ldir, op[1]): str(op[2]) for op in params["script"] if op[0] == "file"}
        if files:
            rec.label("local files")
            got = {k: v for k, v in under(lafter, ldir).items() if v is not None}
            assert got == files, (got, files)
        rest = lambda t: {k: v for k, v in t.items() if k not in under(t, ldir)}
        assert rest(lafter) == rest(lbefore), (lbefore, lafter)
        if not files and not (stale == "stale" and under(lbefore, ldir)):
            assert under(lafter, ldir) == {}
        assert task.output.checksum == task.checksum and task.output.valid_checksum()
        results[key] = out
        names.append(out)
        chain[out] = key
        interesting |= len(results) > 1
    rec.case(key=trace, nontrivial=interesting)
