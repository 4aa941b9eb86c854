"""C06: selected coefficients minimise the configured information criterion."""
import numpy as np
from core import F
from gamlss import scenario, record
from util import make_weights, short, finish_traces, batches
from c03 import selection

CRIT = ["aic", "aicc", "bic", "hqc", "max"]


def formulas(ck):
    """calls of the criteria on scalars, vectors and mixtures"""
    r = ck.rng("formulas")
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    out = []
    for i in range(120 if ck.quick else 1500):
        shapes = pick([("s", "s", "s"), ("s", "v", "v"), ("v", "v", "v"), ("s", "s", "v"), ("v", "s", "s"), ("s", "v", "s")])
        m = int(r.integers(1, 6))
        big = pick([3, 10, 100, 10000])
        n = [float(pick([2.0, 3.0, big, big + 0.5, r.uniform(2.9, big + 3)])) for _ in range(m)]
        if r.random() < 0.4:
            n = [float(int(v)) for v in n]
        p = [int(r.integers(0, max(2, min(12, int(n[0]))))) for _ in range(m)]
        x = [float(v) for v in (r.normal(size=m) * big if i % 2 else np.exp(3 * r.normal(size=m)))]
        arg = lambda kind, v, t=float: t(v[0]) if kind == "s" else np.array(v)
        out.append(dict(c=pick(CRIT) if i % 23 else pick(["AIC", "ric", ""]), frm="ll" if i % 2 else "rss", n=arg(shapes[0], n), p=arg(shapes[1], p, int), x=arg(shapes[2], x),
                        m=m if "v" in shapes else 1))
    return out


def criteria(ck):
    from ondil.information_criteria import InformationCriterion
    traces = []
    for i, s in enumerate(formulas(ck)):
        exc, val = "", []
        full = lambda v: F(np.broadcast_to(np.asarray(v, dtype=float), (s["m"],)))
        shape = np.broadcast(np.asarray(s["n"]), np.asarray(s["p"]), np.asarray(s["x"])).shape
        ok = True
        try:
            with np.errstate(all="ignore"):
                ic = InformationCriterion(n_observations=s["n"], n_parameters=s["p"], criterion=s["c"])
                v = ic.from_ll(s["x"]) if s["frm"] == "ll" else ic.from_rss(s["x"])
            ok = len(np.shape(v)) <= len(shape) and np.shape(v) in ((), (1,), shape) and np.ndim(v) >= np.ndim(s["x"])
            val = full(v) if ok else []
        except Exception as x:
            exc = type(x).__name__
        traces.append(dict(key=f"ic{i}:{s['c']}:{s['frm']}:{s['m']}", ev=[{"op": "ic", "c": s["c"], "from": s["frm"], "n": full(s["n"]), "p": full(s["p"]), "x": full(s["x"]),
                                                                           "val": val, "exc": exc, "shapeOK": bool(ok)}]))
    return traces


def linear(ck, splits):
    r = ck.rng("scn")
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    out = []
    use = [s for s in splits if s["c"] != "aicc"]
    use = [use[i] for i in r.permutation(len(use))[: 160 if ck.quick else 4000]]
    for i, s in enumerate(use):
        k = pick([1, 1, 2, 4])
        d = dict(sizes=[v * k for v in s["sizes"]], ic=s["c"], J=int(r.integers(2, 6)), forget=pick([0.0, 0.0, 0.02, 0.1, 0.25]), weights=pick(["none", "random", "zeros", "wide", "int"]),
                 scale=pick(["all", "off", "mask", "index"]), icpt=bool(r.random() < 0.8), kind=pick(["lasso", "elasticnet", "OnlineLasso"]), nl=pick([5, 10, 20]), noise=pick([0.3, 1.0, 3.0]))
        d["sizes"][0] = max(d["sizes"][0], d["J"] + 3)
        d["unit"] = [1.0, 1.0, 1.0, 1e-9, 1e6, 1e-4][i % 6]
        d["key"] = f"{i}:{d['kind']}:{d['ic']}:{short(d['sizes'])}:J{d['J']}:f{d['forget']:g}:{d['weights']}:{d['scale']}:icpt{int(d['icpt'])}:nl{d['nl']}:{d['noise']:g}:u{d['unit']:g}"
        out.append(d)
    return out


def run(ck):
    splits = ck.model("InfoCriteriaMC", dict(N=8 if ck.quick else 10, MinInit=4))
    from ondil.estimators import OnlineLinearModel, OnlineLasso
    from ondil.methods import LassoPath, ElasticNetPath

    def execute(s):
        if "law" in s:
            return record(ck, dict(s))
        r = ck.rng("data", s["key"])
        n, J = sum(s["sizes"]), s["J"]
        X = r.normal(size=(n, J)) * np.exp(0.5 * r.normal(size=J)) + 0.5 * r.normal(size=J)
        beta = r.normal(size=J) * (r.uniform(size=J) < 0.6)
        drift = np.linspace(-1, 1, n)[:, None] * r.normal(size=J) * (s["noise"] > 0.5)
        y = np.sum(X * (beta + drift), axis=1) + r.normal() + s["noise"] * r.normal(size=n) * np.exp(0.5 * r.normal(size=n))
        y = y * s["unit"]
        w = make_weights(r, s["weights"], n, s["sizes"], J + 3)
        ts, cols = selection(r, s["scale"], J)
        kw = dict(forget=s["forget"], scale_inputs=ts, fit_intercept=s["icpt"], ic=s["ic"])
        if s["kind"] == "OnlineLasso":
            m = OnlineLasso(lambda_n=s["nl"], **kw)
        else:
            m = OnlineLinearModel(method=LassoPath(lambda_n=s["nl"], lambda_eps=1e-3) if s["kind"] == "lasso" else ElasticNetPath(alpha=0.6, lambda_n=s["nl"], lambda_eps=1e-3), **kw)
        Q = np.vstack([X[:1], r.normal(size=(2, J))])
        ev = []
        for bi, (a, b) in enumerate(batches(s["sizes"])):
            e = dict(op="rows", n=b, exc="", path=[], coef=[], pred=[], ppath=[])
            try:
                (m.fit if bi == 0 else m.update)(X[a:b], y[a:b], sample_weight=None if s["weights"] == "none" else w[a:b])
                e.update(path=F(m.coef_path_), coef=F(m.coef_), pred=F(m.predict(Q)), ppath=F(m.predict_path(Q)))
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
            if e["exc"]:
                break
        return dict(key=s["key"], X=F(X), y=F(y), w=F(w), Q=F(Q), forget=float(s["forget"]), cols=[int(c) + 1 for c in cols], icpt=s["icpt"], ic=s["ic"], ev=ev)

    lin = linear(ck, splits)
    r = ck.rng("gamlss")
    gam = []
    for i in range(120 if ck.quick else 700):
        gam.append(scenario(r, i, method=["lasso", "elasticnet"][int(r.integers(2))], rule=["local_rss", "global_ll"][i % 2], J=3 - i % 3 // 2, split_forget=bool(r.random() < 0.5),
                            step=1.0, sizes=[int(r.integers(14, 26))] + [[2, 4, 8][int(r.integers(3))] for _ in range(2)],
                            **(dict(xunit=[1e7, 1e9][i % 2], scale="off") if i % 6 == 5 else {})))
    sc = lin + gam
    with ck.warmup():
        execute(lin[0])
        execute(gam[0])
    tr = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C06Trace", criteria(ck) + tr[: len(lin)])
    ck.validate("GamlssTrace", tr[len(lin):], consts=dict(Focus='"C06"'))
    return ck.finish("model_checking", ["batch splits and criteria enumerated by the model; data sampled",
                                        "training lengths of at most one, where a logarithmic penalty is undefined, are not judged"])
