"""C21: start values."""
import numpy as np
from core import F
from util import finish_traces
import dists

EQUIV = {"Normal", "NormalMeanVariance", "Logistic", "Gumbel", "ReverseGumbel"}
NUMERIC = {"StudentT", "JSU"}


def data(r, law, regime, n):
    if regime == "two":
        y = np.where(r.permutation(n) % 3 == 0, 0.3, 0.7)
        y[:2] = [0.3, 0.7]
    elif regime == "near":
        y = 0.5 + 1e-6 * r.normal(size=n)
    elif regime == "skew":
        y = r.gamma(0.7, 1, n) + 1e-3
    elif regime == "heavy":
        y = r.standard_t(1.5, n)
    elif regime == "whole":
        y = r.integers(1, 9, n).astype(float) if law not in dists.UNIT else r.normal(size=n)
        y[:2] += [0, 1] if law not in dists.UNIT else 0
        if np.ptp(y) == 0:
            y[0] += 1
        if law not in dists.UNIT:
            return y
    elif regime == "onetail":    # all but one value agree
        y = np.full(n, 0.25)
        y[int(r.integers(n))] = 0.75
    else:
        y = r.normal(size=n)
    if law in dists.UNIT:
        if regime not in ("two", "near", "onetail"):
            y = np.clip(1 / (1 + np.exp(-np.clip(y, -12, 12))), 1e-6, 1 - 1e-6)
    elif law not in dists.REAL:
        if regime in ("core",):
            y = np.exp(y)
        y = np.abs(y) + 1e-9
        y = y * 10.0 ** r.integers(-4, 5)
    else:
        y = y * 10.0 ** (r.integers(-4, 5) if law not in NUMERIC else 0)
        if regime != "near":
            y = y + r.normal() * 3
    if law in dists.ATOMS and regime != "near":
        for a in dists.ATOMS[law]:
            y = np.where(r.random(n) < 0.25, a, y)
        if not np.any((y > 0) & (y < 1)):
            y[0] = 0.4
        if np.ptp(y) == 0:
            y[1] = y[0] * 0.5 + 0.1
    return y


def run(ck):
    ck.model("DistributionsMC", dict(Den=24, KMax=84))
    sc = []
    for rep in range(16 if ck.quick else 160):
        for law in dists.LAWS:
            for regime in ("core", "two", "near", "skew", "heavy", "whole", "onetail"):
                sc.append(dict(law=law, regime=regime, key=f"{law}:{regime}:{rep}"))

    def execute(s):
        law, regime = s["law"], s["regime"]
        r = ck.rng("data", s["key"])
        d = dists.cls(law)() if law != "JSU" or r.random() < 0.6 else dists.cls(law)(use_gamlss_init_values=True)
        n = int(r.choice([2, 3, 7, 25, 60]))
        if law not in NUMERIC and r.random() < 0.06:
            n = int(r.choice([300, 1200, 2600]))
        if law in NUMERIC and regime in ("two", "heavy", "skew", "whole", "onetail"):
            n = max(n, 25)
        y = data(r, law, regime, n)
        perm = r.permutation(n)
        a, b = float(2.0 ** r.integers(-3, 4)), float(np.round(r.normal() * 3, 3))
        e = dict(op="start", exc="", y=F(y), perm=[int(i) + 1 for i in perm], a=a, b=b, numeric=law in NUMERIC, rowwise=bool(getattr(d, "gamlss_init_values", False)), equiv=law in EQUIV)
        try:
            with np.errstate(all="ignore"):
                def get(v):
                    o = np.asarray(d.initial_values(v.copy()))
                    return F(o) if o.ndim == 2 else []
                o = get(y if not (regime == "whole" and law not in dists.UNIT) else y.astype(int))
                e.update(out=o, perm_out=get(y[perm]) if law not in NUMERIC or e["rowwise"] else o, moved=get(a * y + b) if law in EQUIV else o)
                arr = np.asarray(o)
                e.update(link=F(np.column_stack([d.links[i].link(arr[:, i].copy()) for i in range(arr.shape[1])])), ll=F(d.logpdf(y.copy(), arr.copy())))
        except Exception as x:
            e["exc"] = type(x).__name__
        return dict(key=s["key"], law=law, ev=[e])

    with ck.warmup():
        execute(sc[0])
    traces = finish_traces(ck.pool(execute, sc), sc)
    ck.validate("C21Trace", traces)
    return ck.finish("model_checking", ["response vectors of 2 to 60 values sampled in seven regimes and over nine orders of magnitude",
                                        "for the laws whose start values come from a numerical optimiser (StudentT, JSU) order independence and equivariance are not claimed"])
