"""Distributional regression: settings, data and iteration-by-iteration recordings (used by C06, C11, C12)."""
import numpy as np
from core import F
from util import batches, short
from dists import LAWS, REAL, UNIT, ATOMS, npar, cls
from c03 import selection

CONTINUOUS = [d for d in LAWS if d not in ATOMS]
EASY = ["Normal", "Logistic", "Gumbel", "ReverseGumbel", "Gamma", "LogNormal", "LogNormalMedian", "Exponential", "NormalMeanVariance"]


def links(law, variant):
    """constructor arguments and the (kind, shift) of every parameter's link"""
    from ondil import links as L
    unit = {"Beta": [1, 1], "BetaInflated": [1, 1, 0, 0], "BetaInflatedZero": [1, 1, 0], "ZeroAdjustedGamma": [0, 0, 1]}.get(law)
    out, kw = [], {}
    for p in range(npar(law)):
        if unit and unit[p]:
            k = ("logit", 0.0)
        elif law in REAL and (p == 0 or (law == "JSU" and p == 2)) or (law == "LogNormal" and p == 0):
            k = ("identity", 0.0)
        elif law == "StudentT" and p == 2:
            k = ("log", 2.0)
        else:
            k = ("log", 0.0)
        out.append(k)
    names = ["loc_link", "scale_link", "skew_link" if law == "JSU" else "tail_link", "tail_link"]
    if variant and out[min(1, len(out) - 1)] == ("log", 0.0) and law not in ("Exponential",):
        alt = {"softplus": (L.InverseSoftPlus, "softplus"), "sqrt": (L.Sqrt, "sqrt"), "logident": (L.LogIdent, "logident")}[variant]
        import inspect
        a = inspect.signature(cls(law).__init__).parameters
        if "scale_link" in a:
            kw["scale_link"] = alt[0]()
            out[1] = (alt[1], 0.0)
    return kw, [dict(kind=k, v=v) for k, v in out]


def data(r, law, n, J, hard=False):
    """covariates and a response from (roughly) the law with parameters depending on the covariates"""
    X = r.normal(size=(n, J)) * np.exp(0.3 * r.normal(size=J)) + 0.5 * r.normal(size=J)
    a = 0.4 * r.normal(size=J) / np.sqrt(J)
    b = 0.15 * r.normal(size=J) / np.sqrt(J)
    m, s = X @ a, np.exp(X @ b - 0.3)
    if law in REAL:
        z = {"StudentT": lambda: r.standard_t(5, n), "JSU": lambda: np.sinh(0.6 * r.normal(size=n)), "Gumbel": lambda: -r.gumbel(size=n),
             "ReverseGumbel": lambda: r.gumbel(size=n), "Logistic": lambda: r.logistic(size=n)}.get(law, lambda: r.normal(size=n))()
        y = m + s * z + 1
    elif law in UNIT:
        mu = 1 / (1 + np.exp(-m))
        y = np.clip(r.beta(mu * 6 + 0.5, (1 - mu) * 6 + 0.5), 0.01, 0.99)
    elif law == "Exponential":
        y = np.exp(m) * r.exponential(size=n)
    else:
        y = np.exp(m + 0.5 * s * r.normal(size=n))
    if hard:
        k = r.random(n) < 0.08
        if law in REAL:
            y = np.where(k, y + 6 * np.abs(r.normal(size=n)) * s, y)
        elif law not in UNIT:
            y = np.where(k, y * 8, y)
    for v in ATOMS.get(law, ()):
        y = np.where(r.random(n) < 0.25, v, y)
    return X, y


def method(r, kind, K):
    """(object or name, description for the specification)"""
    from ondil.methods import OrdinaryLeastSquares, LassoPath, ElasticNetPath, Ridge
    d = dict(kind="ols", al=1.0, nl=0, ratio=1e-4, early=0, ini="previous_lambda", upd="previous_fit", tol=1e-4, maxit=1000, lam=0.0,
             lo=[-np.inf] * K, hi=[np.inf] * K)
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    if kind == "ols":
        return pick(["ols", OrdinaryLeastSquares()]), d
    if kind == "ridge":
        d.update(kind="ridge", lam=float(pick([0.1, 1.0, 5.0])))
        return Ridge(lambda_reg=d["lam"]), d
    M = ["previous_lambda", "previous_fit", "average"]
    d.update(kind="path", nl=int(pick([3, 5, 6])), ratio=float(pick([1e-3, 1e-2, 0.1])), early=int(pick([0, 0, 0, 2])), ini=pick(M), upd=pick(M))
    kw = dict(lambda_n=d["nl"], lambda_eps=d["ratio"], early_stop=d["early"], start_value_initial=d["ini"], start_value_update=d["upd"])
    if kind == "lasso":
        return LassoPath(**kw), d
    d["al"] = float(pick([0.3, 0.5, 0.8]))
    return ElasticNetPath(alpha=d["al"], **kw), d


DEFAULTS = dict(equation="intercept", forget=0.0, fit_intercept=True, regularize_intercept=False, method="ols", ic="aic", step_size=1.0)


def raw(r, name, values):
    """the per-parameter values of a setting in one of the forms a user may write it in"""
    P = len(values)
    eq = lambda a, b: isinstance(a, (str, bool, float)) and type(a) is type(b) and a == b
    missing = [p for p in range(P) if eq(values[p], DEFAULTS[name])]
    same = name != "equation" and all(values[p] is values[0] or eq(values[p], values[0]) for p in range(P))
    k = int(r.integers(3))
    if same and k == 0:
        return values[0]
    keep = [p for p in range(P) if k < 2 or p not in missing]
    return {int(p): values[int(p)] for p in r.permutation(keep)} if keep else {}


def setup(ck, s, eqs=None):
    """data, model and its description for the specification; eqs: [(columns, intercept), ...] or drawn at random"""
    from ondil.estimators import OnlineDistributionalRegression
    r = ck.rng("data", s["key"])
    law, J, n = s["law"], s["J"], sum(s["sizes"])
    P = npar(law)
    kw, lk = links(law, s["variant"])
    X, y = data(r, law, n, J, s["hard"])
    y = y * s["unit"]
    if s.get("xunit"):  # covariates measured in other units
        X = X * np.where(np.arange(J) % 2 == 0, s["xunit"], 1.0)
    w = {"none": np.ones(n), "random": r.uniform(0.3, 2.5, n), "zeros": np.where(r.random(n) < 0.15, 0.0, r.uniform(0.5, 2, n)),
         "int": r.integers(1, 4, n).astype(float)}[s["weights"]]
    for a, b in batches(s["sizes"]):
        if not (w[a:b] > 0).any():
            w[a] = 1.0
    ts, cols = selection(r, s["scale"], J)
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    eq, eqd, icpt, reg, meth, mdesc, ri = {}, [], [], [], {}, [], {}
    for p in range(P):
        form = pick(["all", "intercept", "int", "bool", "all"]) if p == 0 else pick(["all", "intercept", "intercept", "int", "bool"])
        ic = True if form == "intercept" else bool(r.random() < 0.85) or lk[p]["kind"] in ("sqrt", "logident")
        if eqs is not None:
            e, ic = list(eqs[p][0]), bool(eqs[p][1])
            form = "intercept" if not e else "all" if e == list(range(J)) and r.random() < 0.5 else "bool" if e == sorted(e) and r.random() < 0.5 else "int"
            eq[p] = {"intercept": "intercept", "all": "all", "bool": np.array([c in e for c in range(J)]), "int": np.array(e, dtype=int)}[form]
        elif form == "all":
            eq[p], e = "all", list(range(J))
        elif form == "intercept":
            eq[p], e = "intercept", []
        elif form == "int":
            e = [int(v) for v in r.permutation(J)[: int(r.integers(1, J + 1))]]
            eq[p] = np.array(e)
        else:
            m = r.integers(2, size=J).astype(bool)
            m[int(r.integers(J))] = True
            eq[p], e = m, [int(v) for v in np.flatnonzero(m)]
        K = len(e) + int(ic)
        ri[p] = bool(r.random() < 0.3)
        eqd.append([v + 1 for v in e])
        icpt.append(ic)
        reg.append([not (k == 0 and ic and not ri[p] and form != "intercept") for k in range(K)])
        meth[p], d = method(r, s["method"] if s["method"] != "mixed" else pick(["ols", "lasso", "elasticnet", "ridge"]), K)
        mdesc.append(d)
    fg = [float(s["forget"])] * P if not s["split_forget"] else [float(pick([0.0, 0.01, 0.05, 0.1])) for _ in range(P)]
    ics = [pick(["aic", "bic", "hqc", "max"]) for _ in range(P)]
    step = [float(s["step"])] * P if not s["split_step"] else [float(pick([1.0, 0.5, s["step"]])) for _ in range(P)]
    order = [int(v) for v in (r.permutation(P) if s["reorder"] else np.arange(P))]
    D = cls(law)(**kw)
    per = dict(equation=eq, forget=dict(enumerate(fg)), fit_intercept=dict(enumerate(icpt)), regularize_intercept=ri, method=meth, ic=dict(enumerate(ics)), step_size=dict(enumerate(step)))
    if s.get("forms"):
        per = {k: raw(r, k, [v[p] for p in range(P)]) for k, v in per.items()}
    m = OnlineDistributionalRegression(
        distribution=D, **per, scale_inputs=ts, model_selection=s["rule"], prefit_initial=s["preI"], prefit_update=s["preU"],
        cautious_updates=s["cautious"], max_it_outer=s["maxOuter"], max_it_inner=s["maxInner"], min_it_outer=s["minO"],
        abs_tol_outer=s["absO"], abs_tol_inner=s["absI"], rel_tol_outer=s["relO"], rel_tol_inner=s["relI"],
        param_order=np.array(order) if s["reorder"] else None, verbose=0, debug=s.get("debug", True))
    t = dict(key=s["key"], law=law, links=lk, X=F(X), y=F(y), w=F(w), forget=fg, cols=[int(c) + 1 for c in cols], eq=eqd, icpt=icpt, reg=reg, meth=mdesc,
             ic=ics, rule=s["rule"], step=step, order=[v + 1 for v in order],
             S=dict(maxOuter=s["maxOuter"], maxInner=s["maxInner"], absI=float(s["absI"]), relI=float(s["relI"]), absO=float(s["absO"]), relO=float(s["relO"])),
             minO=s["minO"], preI=s["preI"], preU=s["preU"], cautious=s["cautious"])
    return r, m, D, X, y, w, t


def record(ck, s):
    """run one scenario on the implementation and record every inner iteration"""
    r, m, D, X, y, w, t = setup(ck, s)
    P = len(t["links"])
    ev = []
    for bi, (a, b) in enumerate(batches(s["sizes"])):
        ev.append(dict(op="begin", kind="fit" if bi == 0 else "update", n=b, fv0=F(D.initial_values(y[a:b])) if bi == 0 else []))
        exc = ""
        try:
            with np.errstate(all="ignore"):
                (m.fit if bi == 0 else m.update)(X[a:b].copy(), y[a:b].copy(), sample_weight=None if s["weights"] == "none" else w[a:b].copy())
        except Exception as x:
            exc = type(x).__name__
        dbg = {k: getattr(m, "_debug_" + k, {}) for k in ("weights", "working_vectors", "fv", "coef", "coef_path")}
        for k in list(dbg["coef"]):
            p, o, i = k
            fv = np.asarray(dbg["fv"][k])
            with np.errstate(all="ignore"):
                d1, d2 = D.dl1_dp1(y[a:b], fv, param=p), D.dl2_dp2(y[a:b], fv, param=p)
            path = dbg["coef_path"][k]
            ev.append(dict(op="iter", p=int(p) + 1, o=int(o), i=int(i), fv=F(fv), wt=F(dbg["weights"][k]), wv=F(dbg["working_vectors"][k]),
                           coef=F(np.asarray(dbg["coef"][k]).reshape(-1)), path=[] if path is None else F(path),
                           d1=F(np.broadcast_to(d1, (b - a,))), d2=F(np.broadcast_to(d2, (b - a,)))))
        ev.append(dict(op="end", exc=exc, coef=[] if exc else [F(np.asarray(m.coef_[p]).reshape(-1)) for p in range(P)]))
        if exc:
            break
    return dict(t, ev=ev)


def scenario(r, i, **fix):
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    s = dict(law=LAWS[i % len(LAWS)], unit=1.0, J=int(r.integers(1, 4)), variant=pick(["", "", "", "softplus", "sqrt", "logident"]), hard=bool(r.random() < 0.25),
             weights=pick(["none", "random", "zeros", "int"]), scale=pick(["all", "off", "mask", "index"]), method=pick(["ols", "ols", "lasso", "elasticnet", "ridge", "mixed"]),
             forget=pick([0.0, 0.0, 0.01, 0.1]), split_forget=bool(r.random() < 0.3), step=pick([1.0, 1.0, 1.0, 0.5, 1.6, 2.5]), split_step=bool(r.random() < 0.2),
             reorder=bool(r.random() < 0.35), rule=pick(["local_rss", "local_rss", "global_ll"]), preI=pick([0, 0, 0, 1, 2]), preU=pick([0, 0, 1]), cautious=False,
             maxOuter=pick([1, 2, 3, 4]), maxInner=pick([1, 2, 3, 5]), minO=pick([1, 1, 2]), absO=pick([1e-3, 1e-3, 1e-1, 0.0, 1.0]), absI=pick([1e-3, 1e-3, 1e-1, 0.0]),
             relO=pick([1e-5, 1e-5, 1e-2, 0.0]), relI=pick([1e-5, 1e-5, 1e-2, 0.0]),
             sizes=[int(r.integers(16, 30))] + [pick([1, 1, 2, 5]) for _ in range(int(r.integers(1, 4)))])
    s.update(fix)
    if s["unit"] != 1.0:
        s["variant"] = ""
    if s["variant"] == "sqrt":
        s["step"] = min(s["step"], 1.0)
    s["key"] = (f"{i}:{s['law']}:J{s['J']}:{s['method']}:{s['variant'] or 'def'}:{short(s['sizes'])}:f{s['forget']:g}{'*' if s['split_forget'] else ''}:{s['weights']}:{s['scale']}"
                f":o{s['maxOuter']}i{s['maxInner']}m{s['minO']}:pre{s['preI']}/{s['preU']}:step{s['step']:g}:{s['rule']}{':caut' if s['cautious'] else ''}{':re' if s['reorder'] else ''}{'' if s['unit'] == 1 else ':u%g' % s['unit']}{':x%g' % s['xunit'] if s.get('xunit') else ''}")
    return s
