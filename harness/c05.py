"""C05: regularisation paths use the right grid, start values and bounds."""
import numpy as np
from core import F
from util import make_weights, short, finish_traces, batches
from c03 import selection
from c04 import bounds


def scenarios(ck, cfgs):
    r = ck.rng("scn")
    out = []
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    order = r.permutation(len(cfgs))
    use = [cfgs[i] for i in order]
    reps = 1 if ck.quick else 4
    for i, c in enumerate(use * reps):
        s = dict(c, J=int(r.integers(1, 5 if ck.quick else 7)) if i % 30 != 11 else int(r.integers(9, 16)), nl=pick([1, 2, 5, 8, 12] if ck.quick else [1, 5, 12, 30]), ratio=pick([1e-4, 1e-2, 0.1, 0.5]),
                 tol=pick([1e-4, 1e-4, 1e-2, 1e-7]), maxit=pick([0, 1, 3, 1000, 1000, 1000]), sel=pick(["cyclic", "cyclic", "cyclic", "random"]))
        s["kind"] = ["direct", "direct", "model", "lasso"][i % 4]
        s["al"] = 1.0 if s["lasso"] else pick([0.2, 0.5, 0.9, 0.0])
        s["bnd"] = pick(["tight", "nonneg", "some0"]) if s["bounded"] else "none"
        if s["kind"] == "lasso":
            s["al"], s["ini"] = 1.0, "previous_lambda"
        s["sizes"] = [int(r.integers(12, 30))] + [pick([1, 1, 2, 7]) for _ in range(int(r.integers(1, 5)))]
        out.append(s)
    if True:
        for kind in ("lasso_str", "enet_str"):
            out.append(dict(ini="previous_lambda", upd="previous_fit", early=0, lasso=kind == "lasso_str", icpt=False, bounded=False, J=2, nl=100,
                            ratio=1e-4, tol=1e-4, maxit=1000, sel="cyclic", kind=kind, al=1.0 if kind == "lasso_str" else 0.5, bnd="none", sizes=[20, 1]))
    for i, s in enumerate(out):
        s.update(forget=pick([0.0, 0.0, 0.01, 0.1]), weights=pick(["none", "random", "int"]), scale=pick(["all", "off", "mask", "index"]))
        s["key"] = f"{i}:{s['kind']}:{s['ini']}/{s['upd']}:es{s['early']}:a{s['al']}:J{s['J']}:nl{s['nl']}:eps{s['ratio']:g}:tol{s['tol']:g}:it{s['maxit']}:{s['sel']}:{s['bnd']}:ri{int(s['icpt'])}:{short(s['sizes'])}:f{s['forget']:g}:{s['weights']}"
    return out


def run(ck):
    cfgs = ck.model("RegPathMC", dict(NLambda=4, NUpdates=1 if ck.quick else 2))
    from ondil.methods import ElasticNetPath, LassoPath
    from ondil.estimators import OnlineLasso, OnlineLinearModel

    def execute(s):
        r = ck.rng("data", s["key"])
        n, J = sum(s["sizes"]), s["J"]
        X = r.normal(size=(n, J)) * np.exp(0.5 * r.normal(size=J)) + 0.5 * r.normal(size=J)
        y = X @ (r.normal(size=J) * (r.uniform(size=J) < 0.7)) - r.normal() + 0.5 * r.normal(size=n)
        w = make_weights(r, s["weights"], n, s["sizes"], 8)
        direct = s["kind"] == "direct"
        fit_icpt = direct or bool(r.integers(3)) or s["icpt"]
        if s["kind"].endswith("_str"):
            fit_icpt = True
        K = J + int(fit_icpt)
        lo, hi = bounds(r, s["bnd"] if s["bnd"] != "some0" else "none", K)
        if s["bnd"] == "some0":
            m = r.integers(3, size=K)
            lo[m == 1], hi[m == 2] = -0.1, 0.2
        reg = np.ones(K, dtype=bool)
        if fit_icpt:
            reg[0] = s["icpt"]
        kw = dict(lambda_n=s["nl"], lambda_eps=s["ratio"], early_stop=s["early"], selection=s["sel"], tolerance=s["tol"], max_iterations=s["maxit"])
        bl = dict(beta_lower_bound=None if s["bnd"] == "none" else lo.copy(), beta_upper_bound=None if s["bnd"] == "none" else hi.copy())
        sv = dict(start_value_initial=s["ini"], start_value_update=s["upd"])
        meth = LassoPath(**kw, **bl, **sv) if s["lasso"] else ElasticNetPath(alpha=s["al"], **kw, **bl, **sv)
        ts, cols = (False, []) if direct else selection(r, s["scale"], J)
        ev = []
        g = 1 - s["forget"]
        D = np.hstack([np.ones((n, 1)), X])
        if s["kind"] == "lasso":
            m = OnlineLasso(forget=s["forget"], scale_inputs=ts, fit_intercept=fit_icpt, regularize_intercept=s["icpt"] and fit_icpt, start_value=s["upd"], **kw, **bl)
        elif not direct:
            m = OnlineLinearModel(forget=s["forget"], scale_inputs=ts, fit_intercept=fit_icpt, regularize_intercept=s["icpt"] and fit_icpt,
                                  method={"lasso_str": "lasso", "enet_str": "elasticnet"}.get(s["kind"], meth))
        path = None
        for bi, (a, b) in enumerate(batches(s["sizes"])):
            e = dict(op="moments" if direct else "rows", first=bi == 0, exc="", path=[], n=b)
            try:
                if direct:
                    dw = w[:b] * g ** np.arange(b - 1, -1, -1)
                    G, h = D[:b].T @ (D[:b] * dw[:, None]), D[:b].T @ (dw * y[:b])
                    e.update(G=F(G), h=F(h))
                    path = meth.fit_beta_path(G, h[:, None], reg) if bi == 0 else meth.update_beta_path(G, h[:, None], path, reg)
                else:
                    (m.fit if bi == 0 else m.update)(X[a:b], y[a:b], sample_weight=None if s["weights"] == "none" else w[a:b])
                    path = m.coef_path_
                e["path"] = F(path)
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
            if e["exc"]:
                break
        return dict(key=s["key"], X=[] if direct else F(X), y=[] if direct else F(y), w=F(w), forget=float(s["forget"]), cols=[int(c) + 1 for c in cols], icpt=fit_icpt, reg=reg.tolist(),
                    lo=F(lo), hi=F(hi), ini=s["ini"], upd=s["upd"], early=s["early"], al=float(s["al"]), tol=float(s["tol"]), maxit=s["maxit"],
                    ratio=float(s["ratio"]), nl=s["nl"], sel=s["sel"], ev=ev)

    sc = scenarios(ck, cfgs)
    with ck.warmup():
        execute(next(s for s in sc if s["kind"] == "direct"))
        execute(next(s for s in sc if s["kind"] == "lasso"))
    traces = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C05Trace", traces)
    return ck.finish("model_checking", ["settings enumerated by the model; data and moments sampled", "random visiting order: rows checked for optimality and descent only"])
