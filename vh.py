"""Common harness of all checks: hypothesis bootstrap, job scheduling, counting,
violation reporting, replay files and evidence.

A check module (checks/<id>_*.py) registers

 * sub-checks with ``@check(quick=N, thorough=M)`` on top of ``@given(...)``: the
   deciding generated-input search. Every assertion failure (``AssertionError``)
   and every exception the code under test raises on an accepted input is a
   violation.
 * probes of known findings with ``@known("id")``: return a string describing
   what fails when the recorded defect is still present, ``None`` otherwise.
"""
import os
import re
import sys
import json
import time
import glob
import shutil
import signal
import hashlib
import tempfile
import traceback
import importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = int(hashlib.md5(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
SOFT_CAP = float(
    os.environ.get("VERIF_CAP", "240" if TIER == "quick" else "3000")
)  # seconds of generation per job; reaching it is recorded, it never fails
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "90"))
SHRINK_CAP = 90 if TIER == "quick" else 600  # seconds of shrinking per job
HARD_CAP = 780 if TIER == "quick" else None  # seconds after which a check is ended
REPO = os.environ.get("VERIF_REPO", "/repo")

# ---------------------------------------------------------------- scratch
SCRATCH = tempfile.mkdtemp(prefix="verif_")
os.environ["TMPDIR"] = os.path.join(SCRATCH, "tmp")
os.mkdir(os.environ["TMPDIR"])
tempfile.tempdir = os.environ["TMPDIR"]
os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
os.environ["XDG_CACHE_HOME"] = os.path.join(SCRATCH, "cache")
os.environ["HOME"] = os.path.join(SCRATCH, "home")
os.mkdir(os.environ["HOME"])
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")


def _bootstrap_hypothesis():
    """hypothesis is not in the repository's environment: expose exactly that
    package (and its dependency) from the pre-installed tools."""
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    dest = os.path.join(SCRATCH, "deps")
    os.mkdir(dest)
    site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    names = ["hypothesis", "sortedcontainers", "_hypothesis_globals.py"]
    if os.path.isdir(os.path.join(site, "hypothesis")):
        for name in os.listdir(site):
            if name.split("-")[0] in names or name.startswith("_hypothesis"):
                os.symlink(os.path.join(site, name), os.path.join(dest, name))
    else:
        import zipfile

        for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl"):
            for f in glob.glob("/opt/veriftools/wheels/" + pat):
                with zipfile.ZipFile(f) as z:
                    z.extractall(dest)
    sys.path.append(dest)
    import hypothesis  # noqa: F401


_bootstrap_hypothesis()

import hypothesis  # noqa: E402
import hypothesis.strategies as st  # noqa: E402
from hypothesis import given, settings, assume, HealthCheck, Phase  # noqa: E402
import hypothesis.errors as hyperr  # noqa: E402

try:
    import hypothesis.internal.conjecture.engine as _engine

    _engine.MAX_SHRINKING_SECONDS = 60 if TIER == "quick" else 300
except Exception:
    pass

import logging  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


# ---------------------------------------------------------------- recording
class Recorder(object):
    """Measures what the generators really produce."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.labels = {}
        self.excluded = 0
        self.current = None
        self.capped = 0

    def case(self, key, nontrivial=True):
        """One generated case. ``key``: what was generated (its repr)."""
        r = repr(key)
        self.current = r
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(r.encode("utf8", "replace"), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n in (1, 7, 50, 300, 2000):
                    self.samples.append(r if len(r) < 600 else r[:600] + "...")

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def exclude(self):
        """A case that is left out because of a known finding."""
        self.excluded += 1


rec = Recorder()


class CaseTimeout(Exception):
    pass


class HarnessError(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("a single generated case did not end in %ds" % CASE_TIMEOUT)


# ---------------------------------------------------------------- registry
CHECKS = {}
KNOWN = {}
RULES = []


def rule(text):
    RULES.append(text)


def check(quick=200, thorough=5000, shards=None, name=None):
    """Register a sub-check. quick/thorough: number of generated cases (summed over
    the shards)."""

    def deco(func):
        n = name or func.__name__
        CHECKS[n] = dict(
            func=func,
            quick=quick,
            thorough=thorough,
            shards=shards or {"quick": 1, "thorough": 8},
        )
        return func

    return deco


def known(ident):
    def deco(func):
        KNOWN[ident] = func
        return func

    return deco


def known_findings(prop):
    """Entries of the committed known-findings file for this property."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\w+) id=(\w+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


# ---------------------------------------------------------------- scratch dirs
class scratchdir(object):
    """Directory in which one case keeps all its effects."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c", dir=os.environ["TMPDIR"])
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- worker
def _seed_for(sub, shard):
    s = "{}|{}|{}".format(SEED, sub, shard)
    return int(hashlib.md5(s.encode()).hexdigest()[:12], 16)


def _instrument(func, t_end, state):
    """Wrap the inner test of a @given function."""
    inner = func.hypothesis.inner_test

    import functools

    @functools.wraps(inner)
    def wrapped(*args, **kwargs):
        if state["failed"] is None and t_end is not None and time.monotonic() > t_end:
            rec.capped += 1
            return
        if state["failed"] is not None and time.monotonic() > state["t_fail"] + SHRINK_CAP:
            # enough shrinking
            return
        rec.current = None
        old = signal.signal(signal.SIGALRM, _alarm)
        # repeated: the code under test may handle the exception
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT, 5)
        try:
            return inner(*args, **kwargs)
        except (hyperr.UnsatisfiedAssumption, hyperr.StopTest, HarnessError):
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            # frozen/control exceptions of hypothesis are BaseException too
            if type(e).__module__.startswith("hypothesis"):
                raise
            if state["failed"] is None:
                state["t_fail"] = time.monotonic()
            if isinstance(e, CaseTimeout):
                # do not shrink
                state["t_fail"] = -SHRINK_CAP
            state["failed"] = (
                rec.current,
                "".join(traceback.format_exception(type(e), e, e.__traceback__)),
                "{}: {}".format(type(e).__name__, e),
            )
            if not isinstance(e, Exception):
                raise AssertionError(
                    "exits with {}".format(type(e).__name__)
                ).with_traceback(e.__traceback__)
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    func.hypothesis.inner_test = wrapped
    return func


def run_sub(sub, shard, nexamples, blob=None):
    info = CHECKS[sub]
    state = {"failed": None}
    t_end = None if blob else time.monotonic() + SOFT_CAP
    func = _instrument(info["func"], t_end, state)
    func = settings(
        max_examples=max(int(nexamples), 1),
        deadline=None,
        database=None,
        suppress_health_check=list(HealthCheck),
        print_blob=True,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        verbosity=hypothesis.Verbosity.quiet,
    )(func)
    if blob:
        func = hypothesis.reproduce_failure(hypothesis.__version__, blob.encode())(func)
    else:
        func = hypothesis.seed(_seed_for(sub, shard))(func)
    out = {"sub": sub, "shard": shard, "status": "ok", "nexamples": nexamples}
    t0 = time.monotonic()
    try:
        func()
    except (HarnessError, MemoryError, hyperr.Unsatisfiable, hyperr.InvalidArgument):
        out["status"] = "error"
        out["trace"] = traceback.format_exc()
    except BaseException as e:
        if state["failed"] is None:
            out["status"] = "error"
            out["trace"] = traceback.format_exc()
        else:
            out["status"] = "violation"
            out["case"], out["trace"], out["message"] = state["failed"]
            text = "\n".join(getattr(e, "__notes__", []) or []) + str(e)
            m = re.search(r"reproduce_failure\('([^']*)', b'([^']*)'\)", text)
            out["blob"] = m.group(2) if m else None
    out["wall"] = time.monotonic() - t0
    out["evaluations"] = rec.evaluations
    out["hashes"] = rec.hashes
    out["samples"] = rec.samples
    out["labels"] = rec.labels
    out["excluded"] = rec.excluded
    out["capped"] = rec.capped
    return out


def _child(job, path, prop):
    import pickle
    import random

    try:
        # end with the parent
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    random.seed(_seed_for(job[0], job[1]))
    tmp = os.path.join(os.environ["TMPDIR"], "j_%s_%d" % (job[0], job[1]))
    os.mkdir(tmp)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    os.chdir(tmp)
    if not os.environ.get("VERIF_DEBUG"):
        fd = os.open(path + ".log", os.O_WRONLY | os.O_CREAT)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
    try:
        out = run_sub(*job)
    except BaseException:
        out = {
            "sub": job[0],
            "shard": job[1],
            "status": "error",
            "trace": traceback.format_exc(),
        }
    with open(path + ".tmp", "wb") as f:
        pickle.dump(out, f)
    os.rename(path + ".tmp", path)
    sys.stdout.flush()
    os._exit(0)


def run_jobs(jobs, prop):
    import pickle

    t_start = time.monotonic()
    pending = list(enumerate(jobs))
    running = {}
    results = []
    while pending or running:
        while pending and len(running) < NPROC:
            i, job = pending.pop(0)
            path = os.path.join(SCRATCH, "job%d" % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _child(job, path, prop)
                finally:
                    os._exit(3)
            running[pid] = (job, path)
        pid, status = os.waitpid(-1, os.WNOHANG if HARD_CAP else 0)
        if HARD_CAP and time.monotonic() > t_start + HARD_CAP:
            for p in running:
                os.kill(p, signal.SIGKILL)
            del pending[:]
        if pid == 0:
            time.sleep(0.05)
            continue
        if pid not in running:
            continue
        job, path = running.pop(pid)
        if os.path.exists(path):
            with open(path, "rb") as f:
                results.append(pickle.load(f))
        else:
            results.append(
                {
                    "sub": job[0],
                    "shard": job[1],
                    "status": "error",
                    "trace": "worker died with status %d" % status,
                }
            )
    return results


# ---------------------------------------------------------------- main
def load(prop):
    files = glob.glob(os.path.join(HERE, "checks", prop.lower() + "_*.py"))
    if len(files) != 1:
        raise HarnessError("no check module for " + prop)
    spec = importlib.util.spec_from_file_location("vcheck_" + prop, files[0])
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    sys.path.insert(0, os.path.join(HERE, "checks"))
    spec.loader.exec_module(mod)
    import spectrocrunch

    where = os.path.realpath(spectrocrunch.__path__[0])
    expected = os.environ.get("VERIF_EXPECT", REPO)
    if not where.startswith(os.path.realpath(expected) + os.sep):
        raise HarnessError("code under test is imported from " + where)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    return mod


def main(argv):
    import argparse

    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--replay")
    p.add_argument("--only")
    args = p.parse_args(argv)
    try:
        return _main(args)
    except HarnessError as e:
        print("ERROR property=%s %s" % (args.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the check could not run" % args.property)
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _main(args):
    global SEED
    prop = args.property
    t0 = time.monotonic()
    os.chdir(SCRATCH)
    load(prop)
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        os.environ["VERIF_DEBUG"] = "1"
        print("replaying %s of %s" % (r["sub"], prop))
        SEED = r["seed"]
        out = run_sub(r["sub"], r.get("shard", 0), r.get("nexamples") or 100, r["blob"])
        if out["status"] == "violation":
            print(out["trace"])
            print("case:", out["case"])
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("status:", out["status"], out.get("trace", ""))
        return 0 if out["status"] == "ok" else 2

    findings = known_findings(prop)
    for ident, text in findings.items():
        if ident not in KNOWN:
            raise HarnessError("known finding %s has no probe" % ident)
        what = KNOWN[ident]()
        if what:
            print("KNOWN-FINDING: property=%s id=%s %s" % (prop, ident, text))
        else:
            print("known finding %s of %s does not occur (any more)" % (ident, prop))

    jobs = []
    per_job = {}
    for sub, info in CHECKS.items():
        if args.only and sub not in args.only.split(","):
            continue
        shards = info["shards"][TIER] if isinstance(info["shards"], dict) else info["shards"]
        n = info[TIER] * SCALE
        for shard in range(shards):
            jobs.append((sub, shard, max(int(n / shards + 0.5), 1)))
    if not jobs:
        raise HarnessError("nothing to run")
    # longest first would need timings; interleave shards instead
    jobs.sort(key=lambda j: j[1])
    results = run_jobs(jobs, prop)

    violations = [r for r in results if r["status"] == "violation"]
    errors = [r for r in results if r["status"] == "error"]
    rdir = os.path.join(HERE, "replays")
    nviol = 0
    seen = set()
    for r in violations:
        if r["sub"] in seen:
            continue
        seen.add(r["sub"])
        nviol += 1
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.md5((r["sub"] + str(r["case"])).encode("utf8", "replace")).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, r["sub"], h))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "sub": r["sub"],
                    "shard": r["shard"],
                    "nexamples": r["nexamples"],
                    "seed": SEED,
                    "tier": TIER,
                    "blob": r["blob"],
                    "hypothesis": hypothesis.__version__,
                    "case": r["case"],
                    "message": r["message"],
                    "trace": r["trace"],
                    "replay_cmd": "/opt/venv/bin/python run.py %s --replay %s"
                    % (prop, path),
                },
                f,
                indent=1,
            )
        print("--- %s.%s" % (prop, r["sub"]))
        print("minimal case: %s" % (r["case"],))
        print(r["trace"][-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))

    # ------------------------------------------------------------ evidence
    hashes = set()
    evaluations = excluded = capped = 0
    samples, labels, subs = [], {}, {}
    for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        if "evaluations" not in r:
            continue
        evaluations += r["evaluations"]
        excluded += r["excluded"]
        capped += r["capped"]
        hashes |= {(r["sub"], h) for h in r["hashes"]}
        if r["shard"] == 0:
            samples += [{"check": r["sub"], "case": s} for s in r["samples"][:3]]
        s = subs.setdefault(
            r["sub"], {"evaluations": 0, "distinct_nontrivial": set(), "wall_s": 0}
        )
        s["evaluations"] += r["evaluations"]
        s["distinct_nontrivial"] |= r["hashes"]
        s["wall_s"] = round(s["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            k = r["sub"] + ":" + k
            labels[k] = labels.get(k, 0) + v
    for s in subs.values():
        s["distinct_nontrivial"] = len(s["distinct_nontrivial"])
    ev = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " ".join(RULES) or "distinct generated cases",
            "samples": samples,
            "per_check": subs,
            "labels": labels,
            "excluded_known_findings": excluded,
            "skipped_by_time_cap": capped,
        },
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": nviol,
    }
    if not args.only:
        edir = os.path.join(HERE, "evidence")
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.rename(tmp, os.path.join(edir, prop + ".json"))
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1fs"
        % (prop, TIER, SEED, evaluations, len(hashes), nviol, ev["wall_s"])
    )
    if args.only or os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(subs, indent=1))
        print(json.dumps(labels, indent=1))
    for r in errors:
        print("ERROR property=%s sub=%s\n%s" % (prop, r["sub"], r["trace"]))
    if nviol:
        return 1
    if errors:
        return 2
    for sub, s in subs.items():
        if s["distinct_nontrivial"] < 2 and not capped:
            print("ERROR property=%s sub=%s generates no non-trivial cases" % (prop, sub))
            return 2
    return 0
