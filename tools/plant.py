"""Makes /verif/seeded/<id>/ from an edit and a demonstration, after checking them in a scratch copy.

usage: plant.py SPEC.py   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def plant(spec):
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        w = os.path.join(d, "repo")
        sh("cp -a /repo %s && git -C %s checkout -q -- ." % (w, w), "/")
        demo = os.path.join(d, "demo")
        os.mkdir(demo)
        with open(os.path.join(demo, "demo.py"), "w") as f:
            f.write(spec["DEMO"].lstrip("\n"))
        with open(os.path.join(demo, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec %s -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' % PY)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        r = sh("bash %s/demo.sh" % demo, w)
        if r.returncode != 0:
            return "demo fails on the clean tree: %s" % (r.stdout + r.stderr)[-800:]
        for f, old, new in spec["EDITS"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit does not apply (%d times): %r" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        r = sh("bash %s/demo.sh" % demo, w)
        if r.returncode == 0:
            return "demo does not fail with the patch"
        why = (r.stdout + r.stderr).strip().split("\n")[-1]
        r = sh("%s -m pytest -q -x -n 4 sudokutools 2>&1 | tail -8" % PY, w, 600)
        if "failed" in r.stdout or "error" in r.stdout or "passed" not in r.stdout:
            return "tests: " + r.stdout[-800:]
        diff = sh("git diff", w).stdout
        out = os.path.join("/verif/seeded", spec["ID"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "ok: " + why[:150]
    finally:
        shutil.rmtree(d)


for path in sys.argv[1:]:
    spec = {}
    exec(open(path).read(), spec)
    for s in spec.get("SPECS", [spec]):
        print(s["ID"], plant(s), flush=True)
