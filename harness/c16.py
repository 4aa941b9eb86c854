"""C16: link functions."""
import numpy as np
from core import F
from util import finish_traces

OPS = ["link", "inverse", "link_derivative", "link_second_derivative", "inverse_derivative"]


def classes():
    from ondil import links as L
    out = [("identity", 0.0, L.Identity()), ("log", 0.0, L.Log()), ("logident", 0.0, L.LogIdent()), ("softplus", 0.0, L.InverseSoftPlus()),
           ("sqrt", 0.0, L.Sqrt()), ("logit", 0.0, L.Logit()), ("log", 2.0, L.LogShiftTwo()), ("sqrt", 2.0, L.SqrtShiftTwo()),
           ("softplus", 2.0, L.InverseSoftPlusShiftTwo())]
    for v in (0.0, 1.0, 2.0, -3.5, 0.1, 12.25, 1e-3, -100.0):
        out += [("log", v, L.LogShiftValue(v)), ("sqrt", v, L.SqrtShiftValue(v)), ("softplus", v, L.InverseSoftPlusShiftValue(v))]
    return out


def etas(r, kind, regime, n):
    if regime == "core":
        e = r.normal(size=n) * 2
    elif regime == "wide":
        e = r.uniform(-25, 30, n)
    elif regime == "extreme":
        e = r.choice([-1, 1], n) * np.exp(r.uniform(0, np.log(300), n))
    elif regime == "edge":
        e = np.concatenate([[-300.0, -40.0, -34.0, -1e-8, 0.0, 1e-8, 1.0, 34.0, 39.999, 40.0, 40.001, 300.0], r.normal(size=max(0, n - 12))])
    elif regime == "seam":      # around the points where a piecewise definition changes, at all scales
        e = r.choice([0.0, 0.0, 1.0, -1.0, 40.0, 30.0, -30.0, 20.0, -20.0], n) + r.choice([-1, 1], n) * 10.0 ** r.uniform(-7, 0, n)
    elif regime == "whole":
        e = r.integers(-20, 21, n).astype(float)
    else:
        e = r.normal(size=n) * 1e-3
    if kind == "sqrt":
        e = np.abs(e) + 1e-3
    return np.sort(e)


def params(r, kind, v, regime, n):
    if kind == "identity":
        return np.sort(r.normal(size=n) * 10 ** r.uniform(-3, 6))
    if kind == "logit":
        x = {"core": r.uniform(0.05, 0.95, n), "wide": 1 / (1 + np.exp(-r.uniform(-12, 12, n))), "extreme": 10.0 ** r.uniform(-7.5, -0.5, n)}.get(regime, r.uniform(0.4, 0.6, n))
        if regime == "seam":
            x = r.choice([0.5, 0.1, 0.9, 0.01, 0.99], n) + r.choice([-1, 1], n) * 10.0 ** r.uniform(-7, -2.5, n)
        return np.sort(x)
    if regime == "seam":
        return np.sort(v + r.choice([1.0, 1.0, 1.0, 2.0, 40.0, 10.0, 0.1, 0.01], n) * (1 + r.choice([-1, 1], n) * 10.0 ** r.uniform(-7, -0.2, n)))
    if regime == "whole":
        return np.sort(np.ceil(v) + r.integers(1, 30, n))
    x = {"core": np.exp(r.normal(size=n)), "wide": np.exp(r.uniform(-10, 12, n)), "extreme": np.exp(r.uniform(-17, 30, n)),
         "edge": np.concatenate([[1e-6, 1e-3, 0.5, 0.999999, 1.0, 1.000001, 2.0, 39.99, 40.0, 40.01, 1e3, 1e6], np.exp(r.normal(size=max(0, n - 12)))])}.get(regime, 1 + 1e-2 * r.normal(size=n))
    return np.sort(v + x)


def run(ck):
    ck.model("LinksMC", dict(Reach=80 if ck.quick else 480, Den=4 if ck.quick else 16))
    L = classes()
    sc = []
    for rep in range(6 if ck.quick else 60):
        for i, (kind, v, _) in enumerate(L):
            for regime in ("core", "wide", "extreme", "edge", "near", "seam", "whole"):
                sc.append(dict(i=i, regime=regime, key=f"{type(L[i][2]).__name__}({v:g}):{regime}:{rep}"))

    def execute(s):
        kind, v, obj = L[s["i"]]
        r = ck.rng("data", s["key"])
        n = 12
        try:
            lo, hi = obj.link_support
        except Exception:
            lo, hi = np.nan, np.nan
        ev = []

        def call(op, a, f):
            e = dict(op=op, args=F(a), out=[], scalar=[], shape=True, exc="")
            try:
                with np.errstate(all="ignore"):
                    b = a.copy()
                    o = np.asarray(f(b))
                    sh = [(3, 4), (2, 2, 3), (12, 1), (4, 3)][int(r.integers(4))]
                    o2 = np.asarray(f(a.reshape(sh)))
                    sc_ = [float(np.asarray(f(x))) for x in a]
                    e.update(out=F(o.reshape(-1)), scalar=F(sc_), shape=bool(o.shape == a.shape and o2.shape == sh and np.array_equal(o2.reshape(-1), o.reshape(-1), equal_nan=True) and np.array_equal(a, b)))
            except NotImplementedError:
                return
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
        for op in OPS:
            a = etas(r, kind, s["regime"], n) if op.startswith("inverse") else params(r, kind, v, s["regime"], n)
            a = a[:12]
            if s["regime"] == "whole" and kind != "logit" and np.all(a == np.round(a)) and v == np.round(v):
                a = a.astype(int)
            call(op, a, getattr(obj, op))
        call("roundtrip", params(r, kind, v, s["regime"], n)[:12], lambda x: obj.inverse(obj.link(x)))
        a = etas(r, kind, "core", n)
        if kind == "sqrt":
            a += 0.05
        call("roundtrip2", np.clip(a, -6, 6) if kind != "sqrt" else a, lambda e: obj.link(obj.inverse(e)))
        return dict(key=s["key"], kind=kind, v=v, shifted="Shift" in type(obj).__name__, lo=float(lo), hi=float(hi), ev=ev)

    with ck.warmup():
        execute(sc[0])
    traces = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C16Trace", traces)
    return ck.finish("model_checking", ["arguments sampled in seven regimes", "values judged inside the robust limits (parameters at least 1e-8 from the bound, 1e-3 for shifted links); range and monotonicity up to |eta| = 300",
                                        "derivatives a class declares as not implemented (NotImplementedError) are not judged"])
