"""plant.py ID...: confirm planted changes in scratch copies of /repo.

For each seeded/ID: copies /repo, applies patch.diff, imports every module, runs the stable tests with the patch
and the demonstration with and without it, and then the check of the property it names (all from the copy).
plant.py --new ID PROP FILE OLD NEW NEEDS BREAKS  writes seeded/ID/{patch.diff,meta.json,demo.sh} (demo.py is written by hand).
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def new(i, prop, edits, needs, breaks):
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="plant_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, nw in edits:
            p = os.path.join(t, "r", "src/ondil", f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f"{i}: occurrences of {old!r}: {s.count(old)}")
            open(p, "w").write(s.replace(old, nw))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)


def confirm(i):
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="plant_")
    out = {"id": i, "property": meta["property"]}
    try:
        r = t + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))
        env = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1", TMPDIR=t)
        dm = t + "/demo"
        shutil.copytree(d, dm, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        run = lambda c, **k: subprocess.run(c, cwd=r, env=env, capture_output=True, text=True, **k)
        out["demo_clean"] = run(["bash", dm + "/demo.sh"], timeout=300).returncode
        a = run(["git", "apply", d + "/patch.diff"])
        out["apply"] = a.returncode
        if a.returncode:
            return out
        x = run(["bash", dm + "/demo.sh"], timeout=300)
        out["demo_patched"] = x.returncode
        out["demo_says"] = (x.stdout + x.stderr).strip()[-160:]
        if "--notest" not in sys.argv:
            sh = open("/opt/vp/test.sh").read().replace("/repo", r)
            open(t + "/test.sh", "w").write(sh)
            run(["bash", t + "/test.sh", t + "/o.json"])
            b = json.load(open("/opt/vp/BASELINE.json"))
            p = json.load(open(t + "/o.json"))
            out["tests_missing"] = len(set(b["stable"]) - set(p["passed"]))
        if "--nocheck" not in sys.argv:
            e2 = dict(os.environ, VERIF_REPO=r)
            c = subprocess.run([V + "/check", meta["property"], "quick"], env=e2, capture_output=True, text=True)
            out["check_rc"] = c.returncode
        return out
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(S))
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(confirm, ids):
            ok = o.get("demo_clean") == 0 and o.get("apply") == 0 and o.get("demo_patched") not in (0, None) and o.get("tests_missing", 0) == 0
            print("OK " if ok else "BAD", "CAUGHT" if o.get("check_rc") == 1 else "MISSED", json.dumps(o), flush=True)
