"""dev: tools/mkbug.py ID PROPERTY FILE <<< json {"edits": [[old,new],...], "needs":..., "what":..., "demo": python source}"""
import json, os, subprocess, sys, tempfile
def mk(id, prop, edits, needs, what, demo, sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkbug", dir="/tmp")
    subprocess.check_call(["git", "-C", os.environ.get("DEVREPO", "/repo"), "worktree", "add", "-q", "--detach", tmp + "/w", "HEAD"])
    try:
        for f, old, new in edits:
            p = tmp + "/w/" + f
            s = open(p, encoding="utf-8").read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "-C", tmp + "/w", "diff"])
        open(d + "/patch.diff", "wb").write(patch)
    finally:
        subprocess.check_call(["git", "-C", os.environ.get("DEVREPO", "/repo"), "worktree", "remove", "--force", tmp + "/w"])
        os.rmdir(tmp)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or '''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
cp "$here"/demo.py "$d"/ || exit 2
cd "$d" || exit 2
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 HOME="$d" TMPDIR="$d" LC_ALL=C.UTF-8 TZ=UTC
unset PYXRC
timeout 120 /opt/venv/bin/python "$d/demo.py"
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
