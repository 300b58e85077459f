"""Create /verif/seeded/<id> from a specification on stdin (python dict):
{id, property, needs, what, edits: [(file, old, new)], demo: python source}"""
import sys, os, json, subprocess

spec = eval(sys.stdin.read())
d = "/verif/seeded/" + spec["id"]
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == ""
try:
    for f, a, b in spec["edits"]:
        p = "/repo/src/spectrocrunch/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
open(d + "/demo.sh", "w").write(
    '#!/bin/bash\n# exit 0 when the behaviour is right\nHERE="$(cd "$(dirname "$0")" && pwd)"\n'
    'W=$(mktemp -d) || exit 1\ntrap \'rm -rf "$W"\' EXIT\nexport TMPDIR="$W" MPLBACKEND=Agg MPLCONFIGDIR="$W" PYTHONDONTWRITEBYTECODE=1\n'
    'cd "$W" || exit 1\nPYTHONPATH=/repo/src /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(d + "/meta.json", "w"), indent=1)
print("created", d)
