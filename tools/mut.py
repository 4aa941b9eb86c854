"""mut.py PROPS FILE OLD NEW [COUNT]: run checks with one replacement applied to a scratch copy of /repo's sources."""
import os, subprocess, sys, shutil, tempfile
props, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut_")
try:
    shutil.copytree("/repo/src", d + "/src")
    p = os.path.join(d, "src/ondil", f)
    s = open(p).read()
    n = s.count(old)
    want = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    if n < 1 or (want and n != want):
        sys.exit(f"occurrences: {n}")
    open(p, "w").write(s.replace(old, new))
    for pr in props.split(","):
        r = subprocess.run(["/verif/check", pr, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        lines = r.stdout.strip().splitlines()
        print(pr, "rc", r.returncode, "|", [l for l in lines if "scenario" in l][:3], lines[-1][:300] if lines else r.stderr[-300:])
finally:
    shutil.rmtree(d)
