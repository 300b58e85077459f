#!/opt/venv/bin/python
"""Entry point of every check: ``run.py <property id> [--replay FILE] [--only SUB]``.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_SCALE
(multiplies the number of generated cases, for manual campaigns), VERIF_JOBS.
Exit status: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "HDF5_USE_FILE_LOCKING": "FALSE",
    "PYTHONWARNINGS": "ignore",
}
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def reexec():
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_REEXEC"] = "1"
    env.pop("PYTHONPATH", None)
    if env.get("VERIF_REPO"):
        # development only: another working tree than /repo
        env["PYTHONPATH"] = os.path.join(env["VERIF_REPO"], "src")
    os.execve(PYTHON, [PYTHON, "-B", os.path.abspath(__file__)] + [
        os.path.abspath(a) if a.endswith(".json") else a for a in sys.argv[1:]
    ], env)


if __name__ == "__main__":
    if os.environ.get("VERIF_REEXEC") != "1":
        reexec()
    sys.path.insert(0, HERE)
    import vh

    sys.exit(vh.main(sys.argv[1:]))
