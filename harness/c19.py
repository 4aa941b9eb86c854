"""C19: converged fits are stationary points of the weighted likelihood."""
import numpy as np
from core import F
from gamlss import setup, scenario
from dists import LAWS
from util import finish_traces

MAX = 120


def record(ck, s):
    r, m, D, X, y, w, t = setup(ck, s)
    P = len(t["links"])
    e = dict(op="fit", exc="", max=MAX, rounds=MAX, coef=[], prop=[], last=[])
    try:
        with np.errstate(all="ignore"):
            m.fit(X.copy(), y.copy(), sample_weight=None if s["weights"] == "none" else w.copy())
        dbg = m._debug_coef
        o = max(k[1] for k in dbg)
        lastk = [max(k for k in dbg if k[0] == p and k[1] == o) for p in range(P)]
        first = t["order"][0] - 1
        e.update(rounds=int(o), coef=[F(np.asarray(m.coef_[p]).reshape(-1)) for p in range(P)], prop=[F(np.asarray(dbg[k]).reshape(-1)) for k in lastk],
                 last=F(m._debug_fv[(first, o, 0)]))
        e["judged"] = bool(o < MAX and all(np.allclose(dbg[k], m.coef_[k[0]], rtol=1e-6, atol=1e-9) for k in lastk))
    except Exception as x:
        e["exc"] = type(x).__name__
    return dict(t, ev=[e])


def run(ck):
    ck.model("StationaryMC", dict(Rounds=80))
    r = ck.rng("scn")
    sc = []
    for i in range(len(LAWS) * (8 if ck.quick else 60)):
        f = [0.0, 0.0, 0.0, 0.02][int(r.integers(4))]
        s = scenario(r, i, method="ols", forget=f, split_forget=False, step=1.0, split_step=False, preI=0, preU=0, minO=1, maxOuter=MAX, maxInner=20,
                     absO=1e-9, absI=1e-9, relO=0.0, relI=0.0, hard=False, sizes=[int(r.integers(40, 90))], J=int(r.integers(1, 4)))
        sc.append(s)
    ex = lambda s: record(ck, dict(s))
    with ck.warmup():
        ex(sc[0])
    tr = finish_traces(ck.pool(ex, sc), sc)
    ck.notes.append(f"{sum(1 for t in tr if t.get('ev') and t['ev'][0].get('judged'))} of {len(tr)} fits stopped by themselves with their last proposals accepted")
    ck.validate("C19Trace", tr)
    return ck.finish("model_checking", ["data sampled from (roughly) the model", "the gradient is zero up to 0.005 standard errors (deviance tolerance 1e-9)"])
