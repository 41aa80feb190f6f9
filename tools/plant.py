#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS).

Confirms in a scratch copy of /repo that the stable tests pass with the change and that the demonstration passes without
and fails with it, then writes /verif/seeded/<ID>/."""
import json, os, runpy, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/sh\n# exit 0 when the property holds on the tree in the current directory\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main(spec):
    s = runpy.run_path(spec)
    work = f"/tmp/plant_{os.getpid()}"
    out = os.path.join(ROOT, "seeded", s["ID"])
    shutil.copytree("/repo", work + "/repo", symlinks=True)
    try:
        repo = work + "/repo"
        sh("git checkout -q -- . ; git clean -fdq", repo)
        for f, old, new in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(f"{s['ID']}: {t.count(old)} matches in {f}")
                return 1
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", repo).stdout
        base = sh("git diff c098809 HEAD -U0", repo).stdout
        demo = work + "/demo"
        os.makedirs(demo)
        open(demo + "/demo.py", "w").write(s["DEMO"].lstrip())
        open(demo + "/demo.sh", "w").write(DEMO_SH)
        a = sh(f"timeout 280 sh {demo}/demo.sh", repo)
        t = sh("timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3", repo)
        sh("git checkout -q -- .", repo)
        b = sh(f"timeout 280 sh {demo}/demo.sh", repo)
        ok = a.returncode != 0 and b.returncode == 0 and "passed" in t.stdout and "failed" not in t.stdout and "error" not in t.stdout
        print(f"{s['ID']}: with patch rc={a.returncode} {a.stdout.strip().splitlines()[-1:]}; without rc={b.returncode}; "
              f"tests: {t.stdout.strip().splitlines()[-1:]} -> {'KEPT' if ok else 'REFUSED'}")
        if not ok:
            if b.returncode:
                print(b.stdout[-500:])
            return 1
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(f"{demo}/{n}", out)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        return 0
    finally:
        shutil.rmtree(work)


sys.exit(max(main(x) for x in sys.argv[1:]))
