"""C14: density, distribution function, quantiles, moments and draws of every law."""
import numpy as np
from core import F
from util import finish_traces
import dists


def run(ck):
    ck.model("DistributionsMC", dict(Den=24, KMax=84) if ck.quick else dict(Den=48, KMax=168))
    sc = []
    for rep in range(12 if ck.quick else 120):
        for law in dists.LAWS:
            for regime in dists.REGIMES:
                sc.append(dict(law=law, regime=regime, key=f"{law}:{regime}:{rep}"))

    def execute(s):
        law, regime = s["law"], s["regime"]
        r = ck.rng("data", s["key"])
        d = dists.cls(law)()
        ev = []

        def call(op, f, **kw):
            e = dict(op=op, exc="", **kw)
            try:
                with np.errstate(all="ignore"):
                    e.update(f())
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)

        def point(y, th, ints=False):
            def f():
                a = {k: np.asarray(getattr(d, k)(y.astype(int) if ints else y.copy(), th.copy())) for k in ("pdf", "logpdf", "cdf", "logcdf")}
                return dict({k: F(v.reshape(-1)) for k, v in a.items()}, shape=all(v.shape == y.shape for v in a.values()))
            call("point", f, th=F(th), y=F(y))
        n = 10
        th = dists.theta(r, law, n, regime)
        point(dists.response(r, law, th, regime), th)
        # special points: atoms, bounds, outside the support, tiny and large responses
        if law in dists.UNIT:
            y = np.array([0.0, 1.0, -0.5, 1.5, 1e-12, 1 - 1e-9, 0.5, 0.999, 0.001, -1e-9])
        elif law in dists.REAL:
            y = th[:, 0] + th[:, 1] * np.array([0.0, 1.0, -1.0, 5.0, -5.0, 1e-9, 3.0, -3.0, 0.5, -12.0])
        else:
            y = np.array([0.0, -1.0, 1e-9, 1.0, 2.0, 30.0, 1e-3, 0.5, -1e-9, 100.0])
        point(y, th)
        tc = dists.theta(r, law, n, "core")
        point(np.array([0.0, 1.0, 2.0, 0.0, 1.0, 3.0, 1.0, 2.0, 1.0, -1.0]), tc, ints=True)
        # one parameter vector along increasing responses
        m = 14
        y = np.sort(np.concatenate([dists.response(r, law, np.repeat(th[:1], m - 3, 0), "wide"), [-0.3, 0.0, 1.0] if law not in dists.REAL else th[0, 0] + th[0, 1] * np.array([-3.0, 0.0, 3.0])]))
        point(y, np.repeat(th[:1], m, 0))
        # quantiles
        q = np.concatenate([r.uniform(0.01, 0.99, n - 4), [0.5, 1e-3, 0.999, 0.25]])
        tq = dists.theta(r, law, n, regime)

        def quant(q, t):
            def f():
                a, b = np.asarray(d.ppf(q, t.copy())), np.asarray(d.quantile(q, t.copy()))
                return dict(out=F(a.reshape(-1)), shape=a.shape == (len(t),), same=bool(np.array_equal(a, b, equal_nan=True)))
            call("ppf", f, th=F(t), q=F(np.broadcast_to(q, (len(t),))))
        quant(q, tq)
        quant(float(r.uniform(0.05, 0.95)), tq)
        quant(np.linspace(0.03, 0.97, n), np.repeat(tq[:1], n, 0))
        if law in dists.ATOMS:
            # levels at and around the masses
            if law == "ZeroAdjustedGamma":
                lo, up = tq[:, 2], tq[:, 2]
            elif law == "BetaInflatedZero":
                lo = tq[:, 2] / (1 + tq[:, 2])
                up = lo
            else:
                lo = tq[:, 2] / (1 + tq[:, 2] + tq[:, 3])
                up = (1 + tq[:, 2]) / (1 + tq[:, 2] + tq[:, 3])
            quant(lo * r.uniform(0.1, 0.99, n), tq)
            quant(lo + (1 - lo) * 1e-3, tq)
            quant(lo + (up - lo) * 1e-6 if law == "BetaInflated" else lo + (1 - lo) * 1e-6, tq)
            quant(np.where(up > lo, up - (up - lo) * r.choice([1e-2, 1e-4], n), 1 - 1e-4), tq)
            quant(up + (1 - up) * r.uniform(0.01, 0.99, n), tq)
            quant(lo + (up - lo) * 0.5 if law == "BetaInflated" else lo + (1 - lo) * 0.5, tq)
        tm = dists.theta(r, law, n, regime)
        for op in ("mean", "median"):
            def f(op=op):
                a = np.asarray(getattr(d, op)(tm.copy()))
                return dict(out=F(a.reshape(-1)), shape=a.shape == (n,))
            call(op, f, th=F(tm))
        # draws
        rows = int(r.integers(1, 5))
        size = int(r.choice([1, 3, 400, 400]))
        tr = dists.theta(r, law, rows, regime)
        np.random.seed(int(r.integers(2 ** 31)))

        def f():
            a = np.asarray(d.rvs(size, tr.copy()))
            ok = a.shape == (rows, size)
            srt = np.sort(a, axis=1) if ok else a
            k = np.unique(np.linspace(0, size - 1, 17).astype(int))
            return dict(shape=ok, raw=F(a[:2]) if ok and rows > 1 and size == 400 else [], ks=[int(i) + 1 for i in k], draws=F(srt[:, k]) if ok else [])
        call("rvs", f, th=F(tr), size=size)
        # the atoms are drawn as often as the law says: part of the order statistics above
        return dict(key=s["key"], law=law, ev=ev)

    with ck.warmup():
        execute(sc[0])
    traces = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C14Trace", traces)
    return ck.finish("model_checking", ["parameter vectors and responses sampled in three regimes",
                                        "moderate parameter ranges (harness/dists.py); far tails judged with absolute tolerance 1e-12",
                                        "draws judged by a Kolmogorov bound with error probability below 1e-9"])
