"""campaign.py SEED N [FILE-SUBSTRING]: random small source mutants; prints which check reports each, survivors last.

Run from a copy of /verif (VDIR below is the parent of this file)."""
import warnings; warnings.simplefilter("ignore")
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile, difflib

VDIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ("gram.py", "C01 C03 C11"), ("scaler.py", "C02 C08 C17 C10"), ("coordinate_descent.py", "C04 C05"), ("utils.py", "C07 C20"),
    ("information_criteria.py", "C06"), ("methods/ridge.py", "C04 C05 C11 C08 C10"), ("methods/", "C05 C04 C03 C11 C08 C10"), ("links/", "C16"),
    ("distributions/", "C14 C15 C21 C11"), ("base/distribution.py", "C14 C15 C18"), ("base/estimator.py", "C08 C09"),
    ("online_gamlss.py", "C11 C12 C06 C13 C18 C20 C08 C09 C10 C17 C19"), ("online_linear_model.py", "C03 C06 C07 C08 C09 C10 C17"),
    ("online_lasso.py", "C08 C20 C17 C10 C06"),
]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def rep(n, new):
        s, e = pos(n)
        out.append((n.lineno, b[:s].decode() + new + b[e:].decode()))
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ("__init__", "_print_message", "get_debug_information"):
            continue
        names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args if a.arg != "self"})
        body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
        for st in body:
            for n in ast.walk(st):
                t = type(n)
                if t in (ast.Raise,) or "_debug_" in (txt(n) if isinstance(n, ast.stmt) else "") or "message" in (txt(n) if isinstance(n, ast.stmt) else ""):
                    continue
                if t is ast.Compare and type(n.ops[0]) in CMP:
                    rep(n, f"{txt(n.left)} {CMP[type(n.ops[0])]} {txt(n.comparators[0])}")
                elif t is ast.BinOp and type(n.op) in BIN:
                    rep(n, f"({txt(n.left)}) {BIN[type(n.op)]} ({txt(n.right)})")
                elif t is ast.BinOp and type(n.op) is ast.Pow:
                    rep(n, txt(n.left))
                elif t is ast.Constant and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    rep(n, str(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.01 + 1e-3))
                elif t is ast.Constant and isinstance(n.value, bool):
                    rep(n, str(not n.value))
                elif t is ast.Call and n.keywords and n.keywords[-1].arg:
                    k = random.Random(n.lineno).choice(n.keywords)
                    s, e = pos(n)
                    ks, ke = off[k.lineno - 1] + k.col_offset, off[k.end_lineno - 1] + k.end_col_offset
                    rest = b[ke:e].decode()
                    c = rest.lstrip()
                    rest = c[1:] if c.startswith(",") else rest
                    out.append((n.lineno, b[:ks].decode() + rest + b[e:].decode()))
                elif t in (ast.If,):
                    rep(n.test, "True"); rep(n.test, "False")
                elif t is ast.BoolOp:
                    rep(n, f"({txt(n.values[0])})")
                    rep(n, f"({txt(n.values[-1])})")
                elif t is ast.UnaryOp and isinstance(n.op, (ast.Not, ast.USub)):
                    rep(n, txt(n.operand))
                elif t in (ast.Assign, ast.AugAssign) and t is ast.AugAssign:
                    rep(n, "pass")
                elif t is ast.Assign and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                    rep(n, "pass")
                elif t is ast.Expr and isinstance(n.value, ast.Call):
                    rep(n, "pass")
                elif t is ast.Name and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1 and random.Random(n.lineno * 7 + n.col_offset).random() < 0.08:
                    rep(n, random.Random(n.lineno * 100 + n.col_offset).choice([x for x in names if x != n.id]))
    ok = []
    for ln, s in out:
        if s == src:
            continue
        try:
            ast.parse(s)
            ok.append((ln, s))
        except SyntaxError:
            pass
    return ok


def main():
    rnd = random.Random(int(sys.argv[1]))
    want = int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    pool = []
    for f in glob.glob("/repo/src/ondil/**/*.py", recursive=True):
        rel = f[len("/repo/src/ondil/"):]
        ch = next((c for k, c in MAP if k in rel and (("/" in k) or rel.endswith(k))), None)
        if ch is None or sub not in rel or rel.endswith("__init__.py"):
            continue
        src = open(f).read()
        ms = mutants(src)
        rnd.shuffle(ms)
        k = max(4, len(src.split("\n")) // 25)
        pool += [(rel, ch, src, ln, m) for ln, m in ms[:k]]
    rnd.shuffle(pool)
    for rel, ch, src, ln, m in pool[:want]:
        d = tempfile.mkdtemp(prefix="camp_")
        try:
            shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
            open(f"{d}/src/ondil/{rel}", "w").write(m)
            df = [l for l in difflib.unified_diff(src.split("\n"), m.split("\n"), n=0, lineterm="") if l[0] in "+-" and l[:3] not in ("+++", "---")]
            desc = f"{rel}:{ln} " + " => ".join(x.strip() for x in df)[:230]
            res = []
            for pr in ch.split():
                r = subprocess.run([VDIR + "/check", pr, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
                res.append(f"{pr}:{r.returncode}")
                if r.returncode == 1:
                    break
            tag = "CAUGHT" if res[-1].endswith(":1") else "SURVIVED"
            if any(x.endswith(":2") for x in res):
                tag += "!ERR2"
            if tag.startswith("SURVIVED"):
                r = d + "/repo"
                shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__", ".git"))
                open(f"{r}/src/ondil/{rel}", "w").write(m)
                open(d + "/test.sh", "w").write(open("/opt/vp/test.sh").read().replace("/repo", r))
                subprocess.run(["bash", d + "/test.sh", d + "/o.json"], capture_output=True, env=dict(os.environ, PYTHONPATH=r + "/src"))
                last = str(len(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(d + "/o.json"))["passed"])))
                tag += " TESTS[" + last[:70] + "]"
            print(tag, desc, " ".join(res), flush=True)
        finally:
            shutil.rmtree(d)


main()
