"""C03: online least squares of the linear model equals the batch solution."""
import numpy as np
from core import F
from util import make_weights, old, short, finish_traces, batches


def selection(r, kind, J):
    if kind == "all":
        return True, list(range(J))
    if kind == "off":
        return False, []
    if kind == "mask":
        m = r.integers(2, size=J).astype(bool)
        return m, list(np.flatnonzero(m))
    c = r.permutation(J)[: int(r.integers(1, J + 1))].tolist()
    return np.array(c), c


def scenarios(ck, splits):
    r = ck.rng("scn")
    out = []
    fset = [0.0, 1e-4, 0.01, 0.05, 0.2, 0.4]
    for rep in range(11 if ck.quick else 60):
        for s in splits:
            out.append(dict(sizes=[k * [1, 2, 9, 25][int(r.integers(4))] for k in s["sizes"]]))
    for i in range(4):
        out.append(dict(sizes=[12] + [1] * 60))
        out.append(dict(sizes=[120, 1, 80, 2, 1, 1, 200]))
    for f in (0.03, 0.1, 0.3):
        out.append(dict(sizes=[160, 1, 60, 1, 1, 40], old=f))
        out.append(dict(sizes=[250, 1], old=f))
    for i, s in enumerate(out):
        s.update(J=int(r.integers(1, 6)) if i % 20 != 7 else int(r.integers(8, 24)), forget=fset[int(r.integers(6))], weights=["none", "random", "zeros", "wide", "int"][i % 5],
                 sel=["off", "all", "off", "mask", "index"][(i // 3) % 5], icpt=bool(i % 3), method=["ols", "object"][i % 2],
                 how=["array", "array", "whole", "list", "fortran", "array", "whole", "single", "frame", "array", "partial"][i % 11])
        if s.get("old"):
            s.update(forget=s["old"], weights="random", how="array")
        s["sizes"][0] = max(s["sizes"][0], s["J"] + 4 if s["J"] < 8 else 3 * s["J"])
        s["key"] = f"{i}:{short(s['sizes'])}:J{s['J']}:f{s['forget']:.4g}:{s['weights']}:{s['sel']}:icpt{int(s['icpt'])}:{s['how']}{'old' if s.get('old') else ''}"
    return out


def run(ck):
    splits = ck.model("LinearModelMC", dict(N=7 if ck.quick else 8, MinInit=4))
    from ondil.estimators import OnlineLinearModel
    from ondil.methods import OrdinaryLeastSquares

    def execute(s):
        r = ck.rng("data", s["key"])
        n, J = sum(s["sizes"]), s["J"]
        X = r.normal(size=(n, J)) * np.exp(0.7 * r.normal(size=J)) + r.normal(size=J)
        how = s["how"]
        if how == "whole":
            X = np.round(X * 4) + (np.arange(n) % 7 == 0)[:, None] * r.integers(-3, 4, J)
        y = X @ r.normal(size=J) + r.normal() + r.normal(size=n)
        if how == "whole":
            y = np.round(y)
        w = make_weights(r, s["weights"], n, s["sizes"], s["J"] + 4)
        w[: s["J"] + 4] = np.maximum(w[: s["J"] + 4], 1.0)
        if s.get("old"):
            w = old(w, s["forget"])
        ts, cols = selection(r, s["sel"], J)
        m = OnlineLinearModel(forget=s["forget"], scale_inputs=ts, fit_intercept=s["icpt"],
                              method="ols" if s["method"] == "ols" else OrdinaryLeastSquares())
        ev = []

        def form(a):
            if how == "whole":
                return a.astype(int) if np.all(a == np.round(a)) else a
            if how == "list":
                return a.tolist()
            if how == "fortran":
                return np.asfortranarray(a) if a.ndim > 1 else np.repeat(a, 2)[::2]
            if how == "frame":
                import pandas as pd
                return pd.DataFrame(a) if a.ndim > 1 else pd.Series(a, index=range(7, 7 + len(a)))
            return a
        for bi, (a, b) in enumerate(batches(s["sizes"])):
            e = dict(op="fit" if bi == 0 else "update", n=b, exc="", coef=[], nobs=0.0)
            wb = None if s["weights"] == "none" else w[a:b]
            try:
                with np.errstate(all="ignore"):
                    call = m.partial_fit if how == "partial" else m.fit if bi == 0 else m.update
                    call(form(X[a:b]), form(y[a:b]), sample_weight=None if wb is None else np.asarray(form(wb)) if how != "list" else form(wb))
                e["coef"], e["nobs"] = F(np.asarray(m.coef_).reshape(-1)), float(m.n_observations_)
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
            if e["exc"]:
                break
            if b - a > 1 or bi == len(s["sizes"]) - 1 or bi % 11 == 3:
                Z = r.normal(size=(1 if how == "single" else int(r.integers(1, 4)), J)) * 2
                if how == "whole":
                    Z = np.round(Z * 3)
                e = dict(op="predict", Z=F(Z), out=[], exc="")
                try:
                    e["out"] = F(np.asarray(m.predict(form(Z))).reshape(-1))
                except Exception as x:
                    e["exc"] = type(x).__name__
                ev.append(e)
                Z = r.normal(size=(4, J))
                yy = r.normal(size=4) * 3
                e = dict(op="score", Z=F(Z), y=F(yy), out=0.0, exc="")
                try:
                    e["out"] = float(m.score(form(Z), form(yy)))
                except Exception as x:
                    e["exc"] = type(x).__name__
                ev.append(e)
        return dict(key=s["key"], X=F(X), y=F(y), w=F(w), forget=float(s["forget"]), cols=[int(c) + 1 for c in cols],
                    icpt=s["icpt"], ev=ev)

    sc = scenarios(ck, splits)
    with ck.warmup():
        execute(sc[0])
        execute(sc[1])
    traces = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C03Trace", traces)
    return ck.finish("model_checking", ["data sampled, splits enumerated", "compared while the exact Gram matrix stays well conditioned (1e7)"])
