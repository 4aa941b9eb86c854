"""C04: coordinate descent is a bounded, monotone, terminating minimiser; ridge uses it."""
import numpy as np
from core import F
from util import finish_traces


def problem(r, kind, J):
    n = {"well": 3 * J + 10, "wide": max(1, J - 1), "near": 2 * J + 5, "scaled": 2 * J + 5, "corr": 3 * J + 5}[kind]
    X = r.normal(size=(n, J))
    if kind == "near" and J > 1:
        X[:, -1] = X[:, 0] + 1e-3 * r.normal(size=n)
    if kind == "scaled":
        X = X * np.exp(2 * r.normal(size=J))
    if kind == "corr":
        X = X + 3 * r.normal(size=(n, 1))
    b = r.normal(size=J) * (r.uniform(size=J) < 0.7)
    y = X @ b + 0.3 * r.normal(size=n)
    G = X.T @ X
    return G, X.T @ y


def bounds(r, kind, J):
    lo, hi = np.full(J, -np.inf), np.full(J, np.inf)
    if kind == "nonneg":
        lo[:] = 0.0
    elif kind == "nonpos":
        hi[:] = 0.0
    elif kind == "tight":
        lo, hi = -r.uniform(0.05, 0.5, J), r.uniform(0.05, 0.5, J)
    elif kind == "some":
        m = r.integers(3, size=J)
        lo[m == 1], hi[m == 2] = 0.2, -0.1
    elif kind == "fixed":
        lo[0] = hi[0] = 0.7
    elif kind == "offzero":
        lo[:], hi[:] = 0.3, 2.0
    return lo, hi


def scenarios(ck):
    r = ck.rng("scn")
    out = []
    for i in range(700 if ck.quick else 2500):
        J = int(r.integers(1, 7 if ck.quick else 10)) if i % 50 != 17 else int(r.integers(12, 45))
        s = dict(J=J, prob=["well", "wide", "near", "scaled", "corr"][i % 5], bnd=["none", "none", "nonneg", "tight", "some", "nonpos", "fixed", "offzero"][int(r.integers(8))],
                 kind=["cyclic", "cyclic", "random", "ridge", "cyclic_full"][(i // 5) % 5],
                 al=[0.0, 0.3, 0.5, 1.0, 1.0][int(r.integers(5))], lam=[0.0, 1e-3, 0.1, 0.5, 1.5][int(r.integers(5))],
                 tol=[1e-4, 1e-10, 0.0, 1e-2, 0.1, 0.4, 0.9][int(r.integers(7))], reg=["all", "first", "some", "none"][int(r.integers(4))],
                 start=["zero", "random", "far", "sparse"][int(r.integers(4))])
        if s["kind"] == "ridge":
            s["lam"] = [None, 0.1, 1.0, 0.0][int(r.integers(4))]
            if s["prob"] == "wide" or s["prob"] == "near":
                s["reg"] = "all"
                s["lam"] = s["lam"] or 0.5
        s["key"] = f"{i}:{s['kind']}:J{J}:{s['prob']}:{s['bnd']}:a{s['al']}:l{s['lam']}:t{s['tol']:g}:{s['reg']}:{s['start']}"
        out.append(s)
    return out


def run(ck):
    ck.model("CoordDescentMC", dict(MaxIt=1 if ck.quick else 3, Dim=2))
    if not ck.quick:
        ck.model("CoordDescentMC", dict(MaxIt=1, Dim=3))
    from ondil.coordinate_descent import online_coordinate_descent
    from ondil.methods import Ridge

    def execute(s):
        r = ck.rng("data", s["key"])
        J = s["J"]
        G, h = problem(r, s["prob"], J)
        lo, hi = bounds(r, s["bnd"], J)
        reg = np.ones(J, dtype=bool)
        if s["reg"] == "first":
            reg[0] = False
        elif s["reg"] == "some":
            reg = r.integers(2, size=J).astype(bool)
        elif s["reg"] == "none":
            reg[:] = False
        start = {"zero": np.zeros(J), "random": r.normal(size=J), "far": 10 * r.normal(size=J),
                 "sparse": r.normal(size=J) * (r.uniform(size=J) < 0.5)}[s["start"]]
        if r.uniform() < 0.6:
            start = np.clip(start, lo, hi)
        lam = 0.0 if s["lam"] is None else s["lam"] * float(np.max(np.abs(h)))
        ev, kind = [], s["kind"]
        tr = dict(key=s["key"], G=F(G), h=F(h), reg=reg.tolist(), al=float(s["al"]), lo=F(lo), hi=F(hi), start=F(start),
                  tol=float(s["tol"]), kind="random" if kind == "cyclic_full" else kind)
        if kind == "ridge":
            tr["al"] = 0.0
            lam = None if s["lam"] is None else s["lam"] * float(np.trace(G)) / J
            given = bool(r.integers(2))
            rng_b = (None, None) if s["bnd"] == "none" else (lo.copy(), hi.copy())
            m = Ridge(lambda_reg=lam, start_beta=start.copy() if given else None, tolerance=1e-13, max_iterations=200000,
                      selection=["cyclic", "random"][int(r.integers(2))], beta_lower_bound=rng_b[0], beta_upper_bound=rng_b[1])
            for step in range(2):
                e = dict(beta=[], it=1, maxit=0, exc="", mutated=False)
                G0, h0 = G.copy(), h.copy()[:, None]
                try:
                    if step == 0:
                        beta = m.fit_beta(G0, h0, reg.copy())
                    else:
                        b0 = beta.copy()
                        beta2 = m.update_beta(G0, h0, beta=b0, is_regularized=reg.copy())
                        e["mutated"] = not np.array_equal(b0, beta)
                        beta = beta2
                    e["beta"] = F(beta)
                    e["mutated"] |= not (np.array_equal(G0, G) and np.array_equal(h0[:, 0], h))
                except Exception as x:
                    e["exc"] = type(x).__name__
                ev.append(e)
                if e["exc"]:
                    break
            tr["lam"] = float(np.trace(G)) / J if lam is None else lam
            if not given:  # any start inside the bounds is fine for the comparison of objectives
                tr["start"] = F(np.clip(np.zeros(J), lo, hi))
            tr["ev"] = ev
            return tr
        tr["lam"] = lam
        sel = "random" if kind == "random" else "cyclic"
        limits = list(range(0, 9)) if kind == "cyclic" else [0, 1, 3, 2000]
        for m in limits:
            e = dict(beta=[], it=0, maxit=m, exc="", mutated=False)
            a = (G.copy(), h.copy(), start.copy(), lo.copy(), hi.copy(), reg.copy())
            try:
                beta, it = online_coordinate_descent(a[0], a[1], a[2], lam, a[5], float(s["al"]), a[3], a[4], sel, float(s["tol"]), m)
                e.update(beta=F(beta), it=int(it))
                e["mutated"] = not all(np.array_equal(p, q) for p, q in zip(a, (G, h, start, lo, hi, reg)))
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
            if e["exc"]:
                break
            if kind == "cyclic" and e["it"] < m and m < 8 and len(ev) > 2 and ev[-1]["it"] == ev[-2]["it"]:
                break
        tr["ev"] = ev
        return tr

    sc = scenarios(ck)
    with ck.warmup():
        for k in ("cyclic", "ridge"):
            execute(next(s for s in sc if s["kind"] == k))
    traces = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C04Trace", traces)
    return ck.finish("model_checking", ["problems sampled; all visiting orders model checked on a grid of small problems"])
