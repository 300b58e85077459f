"""C07: guarded blocks, scoped caches and temporary redirections."""
import os
import sys
import signal
import tempfile
import numpy as np
from vh import st, given, assume, check, rec, rule, scratchdir
from spectrocrunch.utils import signalhandling, cache, stdout
from spectrocrunch.io import utils as ioutils

rule(
    "Generated programs of nested guarded blocks (depth up to 4, sequences inside blocks) "
    "with exceptions or SIGTERM/SIGHUP injected at any point, teardown functions that "
    "swallow or propagate. Non-trivial: an injected fault inside a nested block."
)


class Boom(Exception):
    pass


class Stop(Exception):
    pass


# program: list of statements
#  ("mark",) ("raise",) ("signal", name) ("block", swallow, resend, program)
def programs(depth):
    leaf = st.one_of(
        st.just(("mark",)),
        st.just(("mark",)),
        st.just(("raise",)),
        st.sampled_from([("signal", "SIGTERM"), ("signal", "SIGHUP"), ("signal", "SIGINT")]),
    )
    if depth == 0:
        return st.lists(leaf, max_size=3)
    block = st.tuples(
        st.just("block"), st.booleans(), st.booleans(), st.deferred(lambda: programs(depth - 1))
    )
    return st.lists(st.one_of(leaf, block, block), max_size=3)


SIGS = ["SIGTERM", "SIGHUP", "SIGINT"]


class Model(object):
    """Reference semantics of the guarded blocks."""

    def __init__(self):
        self.trace = []
        self.n = 0
        self.blocks = []

    def run(self, program):
        for s in program:
            if s[0] == "mark":
                self.trace.append("mark")
            elif s[0] == "raise":
                raise Boom()
            elif s[0] == "signal":
                self.signal(s[1])
            else:
                self.block(*s[1:])

    def signal(self, name):
        # stops the innermost guarded block
        if self.blocks:
            b = self.blocks[-1]
            b["signals"].append(name)
            raise Stop(b)
        self.trace.append(("original", name))

    def block(self, swallow, resend, program):
        self.n += 1
        b = {"id": self.n, "signals": []}
        self.trace.append(("setup", b["id"]))
        self.blocks.append(b)
        exc = None
        try:
            self.run(program)
        except (Boom, Stop) as e:
            exc = e
        self.blocks.pop()
        name = type(exc).__name__ if exc else None
        if b["signals"]:
            name = "RuntimeError"
        self.trace.append(("teardown", b["id"], name))
        if resend:
            for sig in b["signals"]:
                self.signal(sig)
        if isinstance(exc, Stop) and exc.args[0] is b:
            return
        if exc and not swallow:
            raise exc


class Real(object):
    def __init__(self):
        self.trace = []
        self.n = 0

    def run(self, program):
        for s in program:
            if s[0] == "mark":
                self.trace.append("mark")
            elif s[0] == "raise":
                raise Boom()
            elif s[0] == "signal":
                os.kill(os.getpid(), getattr(signal, s[1]))
            else:
                self.block(*s[1:])

    def block(self, swallow, resend, program):
        self.n += 1
        ident = self.n

        def setup():
            self.trace.append(("setup", ident))

        def teardown(exc_type, exc_value, exc_traceback):
            self.trace.append(("teardown", ident, exc_type.__name__ if exc_type else None))
            return swallow

        with signalhandling.HandleTermination(setup=setup, teardown=teardown, resend=resend):
            self.run(program)


def depth(p):
    return max([0] + [1 + depth(s[3]) for s in p if s[0] == "block"])


def faults(p, d=0):
    n = 0
    for s in p:
        if s[0] in ("raise", "signal"):
            n += d > 0
        elif s[0] == "block":
            n += faults(s[3], d + 1)
    return n


@check(quick=3000, thorough=50000, shards={"quick": 3, "thorough": 8})
@given(programs(3))
def guarded_blocks(program):
    model = Model()
    mexc = None
    try:
        model.run(program)
    except Boom as e:
        mexc = e
    nblocks = sum(1 for t in model.trace if t[0] == "setup")
    rec.case(program, nontrivial=nblocks > 1 and faults(program) > 0)
    real = Real()
    sigs = [getattr(signal, s) for s in SIGS]
    old = {}
    handlers = {}
    for s in sigs:

        def handler(signum, frame):
            name = [n for n in SIGS if getattr(signal, n) == signum][0]
            real.trace.append(("original", name))

        handlers[s] = handler
        old[s] = signal.signal(s, handler)
    rexc = None
    try:
        try:
            real.run(program)
        except Boom as e:
            rexc = e
        for s in sigs:
            assert signal.getsignal(s) is handlers[s], "handler of %s not restored" % s
    finally:
        for s in sigs:
            signal.signal(s, old[s])
    assert real.trace == model.trace, (real.trace, model.trace)
    assert (rexc is None) == (mexc is None)
    teardowns = [t[1] for t in real.trace if t[0] == "teardown"]
    assert sorted(teardowns) == list(range(1, nblocks + 1)), "cleanup not exactly once"


@check(quick=300, thorough=3000)
@given(st.sampled_from(["setup", "teardown"]), st.booleans(), st.integers(0, 2))
def failing_hooks(where, error, outer):
    """Handlers are restored even when the user hooks themselves fail."""
    rec.case((where, error, outer))
    sigs = [getattr(signal, s) for s in SIGS]

    def handler(signum, frame):
        pass

    old = {s: signal.signal(s, handler) for s in sigs}
    calls = []

    def fail(*args):
        calls.append(1)
        raise Boom()

    try:
        try:
            with signalhandling.HandleTermination(**{where: fail}):
                if error:
                    raise ValueError()
        except (Boom, ValueError):
            pass
        assert calls == [1]
        for s in sigs:
            assert signal.getsignal(s) is handler
    finally:
        for s in sigs:
            signal.signal(s, old[s])


@check(quick=300, thorough=3000)
@given(st.sampled_from(["setup", "teardown"]), st.lists(st.sampled_from(SIGS), min_size=1, max_size=2), st.booleans(), st.booleans(), st.booleans())
def signalled_hooks(where, names, error, swallow, resend):
    """Signals during the set-up or clean-up itself"""
    rec.case((where, names, error, swallow, resend))
    trace = []

    def handler(signum, frame):
        trace.append(signum)

    def send(n):
        for s in names[:n]:
            os.kill(os.getpid(), getattr(signal, s))

    def setup():
        trace.append("setup")
        if where == "setup":
            send(1)
            trace.append("setup continues")

    def teardown(*args):
        trace.append(args[0].__name__ if args[0] else "end")
        if where == "teardown":
            send(2)
            trace.append("cleaned up")
        return swallow

    old = {s: signal.signal(getattr(signal, s), handler) for s in SIGS}
    raised = None
    try:
        try:
            with signalhandling.HandleTermination(setup=setup, teardown=teardown, resend=resend):
                trace.append("body")
                if error:
                    raise Boom()
        except (Boom, SystemExit) as e:
            raised = type(e).__name__
        for s in SIGS:
            assert signal.getsignal(getattr(signal, s)) is handler
    finally:
        for s in SIGS:
            signal.signal(getattr(signal, s), old[s])
    signums = [getattr(signal, s) for s in names] if resend else []
    if where == "setup":
        expected = ["setup"] + signums[:1]
        assert raised == "SystemExit"
    else:
        expected = ["setup", "body", "Boom" if error else "end", "cleaned up"] + signums
        assert raised == ("Boom" if error and not swallow else None)
    assert trace == expected, (trace, expected)


# ------------------------------------------------------------------ caches
class Cached(cache.Cache):
    def __init__(self, force):
        super(Cached, self).__init__(force=force)
        self.ngen = {"a": 0, "b": 0}

    def _cache_a(self, *args):
        self.ngen["a"] += 1
        return "a", args, self.ngen["a"]

    def _cache_b(self, *args):
        self.ngen["b"] += 1
        return "b", args, self.ngen["b"]

    @cache.withcache("a")
    def usea(self, func):
        return func()


def cprograms(depth):
    leaf = st.sampled_from([("get", "a"), ("get", "b"), ("raise",), ("get", "a")])
    if depth == 0:
        return st.lists(leaf, max_size=3)
    block = st.tuples(
        st.sampled_from(["ctx", "with"]), st.sampled_from(["a", "b"]), st.booleans(),
        st.deferred(lambda: cprograms(depth - 1)),
    )
    return st.lists(st.one_of(leaf, block), max_size=4)


class CModel(object):
    def __init__(self):
        self.ngen = {"a": 0, "b": 0}
        self.store = {}
        self.trace = []

    def gen(self, s, args):
        self.ngen[s] += 1
        return s, args, self.ngen[s]

    def run(self, program, force):
        for s in program:
            if s[0] == "raise":
                raise Boom()
            if s[0] == "get":
                if s[1] in self.store:
                    self.trace.append(self.store[s[1]])
                elif force:
                    self.trace.append("error")
                else:
                    self.trace.append(self.gen(s[1], ()))
                continue
            subject = "a" if s[0] == "with" else s[1]
            args = () if s[0] == "with" else (5,)
            new = subject not in self.store
            if new:
                self.store[subject] = self.gen(subject, args)
            try:
                self.run(s[3], force)
            except Boom:
                if not s[2]:
                    raise
            finally:
                if new:
                    del self.store[subject]


def crun(o, trace, program, force):
    for s in program:
        if s[0] == "raise":
            raise Boom()
        if s[0] == "get":
            try:
                trace.append(o.getcache(s[1]))
            except (RuntimeError, AttributeError):
                if not force:
                    raise
                trace.append("error")
            continue
        try:
            if s[0] == "with":
                o.usea(lambda: crun(o, trace, s[3], force))
            else:
                with o.cachectx(s[1], 5):
                    crun(o, trace, s[3], force)
        except Boom:
            if not s[2]:
                raise


@check(quick=3000, thorough=50000, shards={"quick": 2, "thorough": 8})
@given(cprograms(3), st.booleans())
def scoped_cache(program, force):
    model = CModel()
    mexc = rexc = False
    # swallowing applies around the block
    try:
        model.run(program, force)
    except Boom:
        mexc = True
    o = Cached(force)
    trace = []
    try:
        crun(o, trace, program, force)
    except Boom:
        rexc = True
    rec.case((program, force), nontrivial=len(model.trace) > 1 and (model.ngen["a"] + model.ngen["b"]) > 1)
    assert trace == model.trace, (trace, model.trace)
    assert o.ngen == model.ngen
    assert rexc == mexc
    # nothing leaks out of the blocks
    n = dict(o.ngen)
    for s in "ab":
        if force:
            try:
                o.getcache(s)
            except RuntimeError:
                continue
            assert False, "cache leaked"
        else:
            o.getcache(s)
            assert o.ngen[s] == n[s] + 1, "cache leaked"


@check(quick=300, thorough=3000)
@given(st.lists(st.tuples(st.text(alphabet="abc", max_size=3), st.integers(0, 9)), max_size=12), st.integers(0, 5))
def limited_dict(items, limit):
    d = cache.LimitedSizeDict(size_limit=limit)
    model = {}
    for k, v in items:
        d[k] = v
        model[k] = v
        while len(model) > limit:
            model.pop(next(iter(model)))
        assert list(d.items()) == list(model.items())
    rec.case((items, limit), nontrivial=len(items) > limit)


@check(quick=300, thorough=3000)
@given(st.lists(st.sampled_from(["in", "raise", "out"]), min_size=1, max_size=5))
def redirect(ops):
    """Output goes to the previous destination after the block."""
    rec.case(ops, nontrivial="in" in ops)
    import io

    with scratchdir() as d:
        f0 = os.path.join(d, "orig")
        saved = os.dup(1)
        savedstdout = sys.stdout
        fd = os.open(f0, os.O_WRONLY | os.O_CREAT)
        try:
            os.dup2(fd, 1)
            sys.stdout = os.fdopen(os.dup(1), "w")
            mine = sys.stdout
            expected = b""
            for i, op in enumerate(ops):
                token = ("%d;" % i).encode()
                if op == "out":
                    os.write(1, token)
                    expected += token
                else:
                    try:
                        with stdout.stdout_redirect():
                            os.write(1, token)
                            if op == "raise":
                                raise Boom()
                    except Boom:
                        assert op == "raise"
                assert sys.stdout is mine
            mine.flush()
        finally:
            os.dup2(saved, 1)
            os.close(saved)
            os.close(fd)
            sys.stdout = savedstdout
        assert open(f0, "rb").read() == expected


@check(quick=400, thorough=4000)
@given(st.binary(max_size=20), st.booleans(), st.booleans(), st.sampled_from(["tmpcopy", "copy", "tmpname"]))
def temporary_files(content, error, remove, kind):
    rec.case((content, error, remove, kind))
    with scratchdir() as d:
        src = os.path.join(d, "src")
        with open(src, "wb") as f:
            f.write(content)
        dest = os.path.join(d, "copy")
        before = set(os.listdir(tempfile.gettempdir()))
        if kind == "tmpcopy":
            ctx = ioutils.TemporaryCopy(src)
        elif kind == "copy":
            ctx = ioutils.Copy(src, dest)
        else:
            ctx = ioutils.TemporaryFilename(path=d)
        name = None
        try:
            with ctx as name:
                if kind == "tmpname":
                    assert not os.path.exists(name) and os.path.dirname(name) == d
                    with open(name, "wb") as f:
                        f.write(content)
                else:
                    assert open(name, "rb").read() == content
                if remove:
                    os.remove(name)
                if error:
                    raise Boom()
        except Boom:
            assert error
        else:
            assert not error
        keep = kind == "copy" and not error and not remove
        assert os.path.exists(name) == keep
        assert open(src, "rb").read() == content
        assert set(os.listdir(tempfile.gettempdir())) == before
