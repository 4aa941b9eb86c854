"""C15: scores, curvature and cross derivatives of every law."""
import itertools
import numpy as np
from core import F
from util import finish_traces
import dists

DEN, KMAX = 16, 54


def nodes(law, th):
    """the nodes Node(d, th, k, Den) of spec/Distributions.tla in double precision"""
    t = np.arange(-KMAX, KMAX + 1) / DEN
    u = np.pi / 2 * np.sinh(t)
    if law in dists.REAL:
        s = np.sqrt(th[1]) if law == "NormalMeanVariance" else th[1]
        return th[0] + s * np.sinh(u)
    if law in dists.UNIT:
        return 1 / (1 + np.exp(-2 * u))
    return (np.exp(th[0]) if law == "LogNormal" else th[0]) * np.exp(u)


def run(ck):
    ck.model("DistributionsMC", dict(Den=24, KMax=84) if ck.quick else dict(Den=48, KMax=168))
    sc = []
    for rep in range(14 if ck.quick else 120):
        for law in dists.LAWS:
            for regime in dists.REGIMES:
                sc.append(dict(law=law, regime=regime, key=f"{law}:{regime}:{rep}"))

    def execute(s):
        law, regime = s["law"], s["regime"]
        r = ck.rng("data", s["key"])
        d = dists.cls(law)()
        p = dists.npar(law)
        pairs = [(i, j) for i in range(p) for j in range(p) if i != j]
        ev = []

        def call(op, f, **kw):
            e = dict(op=op, exc="", **kw)
            try:
                with np.errstate(all="ignore"):
                    e.update(f())
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)

        def arr(v, n):
            v = np.asarray(v)
            return F(v.reshape(-1)) if v.shape == (n,) else []
        n = 8
        for block in range(2):
            th = dists.theta(r, law, n, regime)
            if block:
                th = np.repeat(th[:1], n, 0)
            y = dists.response(r, law, th, regime)
            yi = y
            if block and law not in dists.UNIT and r.random() < 0.4:      # whole numbers of an integer type
                y = np.round(y) if law in dists.REAL else np.maximum(np.round(y), 1)
                if np.max(np.abs(y - dists.middle(law, th)) / dists.spread(law, th)) > 20:
                    y = yi
                else:
                    yi = y.astype(int)
            for i in range(p):
                call("score", lambda i=i, yi=yi, th=th: dict(out=arr(d.dl1_dp1(yi.copy(), th.copy(), param=i), n)), i=i + 1, th=F(th), y=F(y))
                call("curv", lambda i=i, yi=yi, th=th: dict(out=arr(d.dl2_dp2(yi.copy(), th.copy(), param=i), n)), i=i + 1, th=F(th), y=F(y))
            for i, j in itertools.combinations(range(p), 2):
                call("cross", lambda i=i, j=j, yi=yi, y=y, th=th: dict(out=arr(d.dl2_dpp(yi.copy(), th.copy(), params=(i, j)), n), swapped=arr(d.dl2_dpp(y.copy(), th.copy(), params=(j, i)), n)), i=i + 1, j=j + 1)
        # expected information by quadrature
        th1 = dists.theta(r, law, 1, "core")[0]
        if regime != "core":
            k = int(r.integers(p))     # one parameter away from the middle
            th1[k] = dists.theta(r, law, 1, "wide")[0][k]
        if law in dists.UNIT:
            th1[1] = min(th1[1], 0.9 * np.sqrt(min(th1[0], 1 - th1[0]) / (1 + min(th1[0], 1 - th1[0]))))
        if law == "StudentT":
            th1[2] = np.clip(th1[2], 1.5, 60)
        if law == "JSU":
            th1[3] = max(th1[3], 0.6)
            th1[2] = np.clip(th1[2], -4, 4)
        if law in ("Gamma", "ZeroAdjustedGamma", "InverseGamma", "InverseGaussian"):
            th1[1] = np.clip(th1[1], 0.2, 1.1)
        if law == "InverseGaussian":
            th1[0] = np.clip(th1[0], 0.2, 10)
        if law in ("LogNormal", "LogNormalMedian"):
            th1[1] = np.clip(th1[1], 0.1, 3)
        y = np.concatenate([nodes(law, th1), dists.ATOMS.get(law, ())])
        T = np.repeat(th1[None, :], len(y), 0)
        w = np.where((y > 0) & (y < 1), y, 0.5) if law in dists.UNIT else y   # nodes that round to a bound carry no mass: any value does
        if law in dists.ATOMS:
            w[-len(dists.ATOMS[law]):] = dists.ATOMS[law]
        if law not in dists.REAL:
            w[:len(y) - len(dists.ATOMS.get(law, ()))] = np.maximum(w[:len(y) - len(dists.ATOMS.get(law, ()))], 1e-300)
        outs = [(i, i) for i in range(p)] + [(i, j) for i, j in pairs if i < j]

        def f():
            o = []
            for i, j in outs:
                v = d.dl2_dp2(w.copy(), T.copy(), param=i) if i == j else d.dl2_dpp(w.copy(), T.copy(), params=(i, j))
                o.append(dict(i=i + 1, j=j + 1, v=arr(v, len(w))))
            return dict(out=o)
        call("info", f, th=F(th1), den=DEN, kmax=KMAX, y=F(w), atoms=[int(a) for a in dists.ATOMS.get(law, ())])
        # parameters that do not exist
        yb, tb = y[:3].copy(), T[:3].copy()
        for q in (p, p + 3, -1):
            call("bad", lambda q=q: [d.dl1_dp1(yb, tb, param=q), {}][1])
            call("bad", lambda q=q: [d.dl2_dp2(yb, tb, param=q), {}][1])
            call("bad", lambda q=q: [d.dl2_dpp(yb, tb, params=(0, q)), {}][1])
            call("bad", lambda q=q: [d.dl2_dpp(yb, tb, params=(q, 0)), {}][1])
        for q in range(p):
            call("bad", lambda q=q: [d.dl2_dpp(yb, tb, params=(q, q)), {}][1])
        return dict(key=s["key"], law=law, ev=ev)

    with ck.warmup():
        execute(sc[0])
    traces = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C15Trace", traces)
    return ck.finish("model_checking", ["parameter vectors and responses sampled in three regimes", "expectations by a double exponential rule of 109 nodes, relative tolerance 1e-5",
                                        "information judged at moderate parameter vectors where the rule resolves the law (its total mass is checked)"])
