"""C07: effective training length, online averages and reported counts."""
import numpy as np
from core import F
from util import make_weights, short, finish_traces, batches


def run(ck):
    splits = ck.model("TrainingLengthMC", dict(N=8 if ck.quick else 11))
    from ondil import utils as u
    from ondil.estimators import OnlineLinearModel, OnlineDistributionalRegression, OnlineLasso
    from ondil.distributions import Normal, StudentT
    r0 = ck.rng("scn")
    fset = [0.0, 1e-7, 1e-4, 0.01, 0.1, 0.5, 0.9, 0.999]

    # helpers
    lens = []
    for f in fset + r0.uniform(0, 1, 8).tolist():
        lens.append(dict(key=f"length:f{f:.6g}", f=float(f)))

    def length(s):
        ev = []
        f = s["f"]
        r = ck.rng("len", s["key"])
        ns = [1, 2, 3, 5, 10, 57, 1000, 100000] + [float(x) for x in r.uniform(0.5, 500, 6)]
        for n in ns:
            e = dict(op="length", forget=float(f), n=float(n), eff=0.0, asym=0.0, exc="")
            try:
                e["eff"] = float(u.calculate_effective_training_length(f, n))
                e["asym"] = float(u.calculate_asymptotic_training_length(f))
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
        return dict(key=s["key"], ev=ev)

    means = []
    for i, s in enumerate(splits):
        for rep in range(2):
            k = [1, 1, 4, 13][int(r0.integers(4))]
            sizes = [1] + [x * k for x in s["sizes"][1:]]
            f = float(fset[int(r0.integers(len(fset)))])
            means.append(dict(sizes=sizes, f=f, key=f"mean{i}.{rep}:{short(sizes)}:f{f:.4g}"))

    def mean(s):
        r = ck.rng("mean", s["key"])
        v = r.normal(size=sum(s["sizes"])) * 3 + 1
        ev, avg = [], float(v[0])
        for bi, (a, b) in enumerate(batches(s["sizes"])):
            if bi == 0:
                continue
            e = dict(op="mean", n=b, avg=0.0, exc="")
            try:
                if b - a == 1 and bi % 2:
                    avg = u.online_mean_update(avg, float(v[a]), s["f"], b)
                else:
                    avg = u.online_mean_update(avg, v[a:b].copy(), s["f"], b)
                e["avg"] = float(avg)
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
            if e["exc"]:
                break
        return dict(key=s["key"], v=F(v), forget=s["f"], ev=ev)

    counts = []
    kinds = ["lm", "lasso", "gamlss", "gamlss_dict", "onlinelasso"]
    short_splits = [s for s in splits if len(s["sizes"]) <= 5]
    for i, s in enumerate(short_splits[:: 2 if ck.quick else 1]):
        sizes = [30 + s["sizes"][0]] + [int(x * [1, 3][i % 2]) for x in s["sizes"][1:]]
        f = float([0.0, 0.01, 0.1, 0.3][i % 4])
        counts.append(dict(kind=kinds[i % 5], sizes=sizes, f=f, w=["none", "random", "int"][i % 3],
                           key=f"count{i}:{kinds[i % 5]}:{short(sizes)}:f{f}"))

    def count(s):
        r = ck.rng("count", s["key"])
        n = sum(s["sizes"])
        X = r.normal(size=(n, 2))
        y = X @ [1.0, -1.0] + r.normal(size=n)
        w = make_weights(r, s["w"], n, s["sizes"], 20)
        f = s["f"]
        if s["kind"] == "lm":
            m, fs = OnlineLinearModel(forget=f), [f]
        elif s["kind"] == "lasso":
            m, fs = OnlineLinearModel(forget=f, method="lasso"), [f]
        elif s["kind"] == "onlinelasso":
            m, fs = OnlineLasso(forget=f, lambda_n=5), [f]
        elif s["kind"] == "gamlss":
            m, fs = OnlineDistributionalRegression(Normal(), forget=f, max_it_outer=3), [f, f]
        else:
            fs = [f, 0.0, f / 2]
            m = OnlineDistributionalRegression(StudentT(), forget={0: fs[0], 1: fs[1], 2: fs[2]}, max_it_outer=2)
        ev = []
        for bi, (a, b) in enumerate(batches(s["sizes"])):
            e = dict(op="count", n=b, nobs=0.0, nsamples=0.0, ntrain=[], exc="")
            try:
                with np.errstate(all="ignore"):
                    wb = None if s["w"] == "none" else w[a:b]
                    (m.fit if bi == 0 else (m.update if bi % 2 else m.partial_fit))(X[a:b], y[a:b], wb)
                e["nobs"], e["nsamples"] = float(m.n_observations_), float(m.n_samples_)
                nt = m.n_training_
                e["ntrain"] = [float(nt[p]) for p in range(len(fs))] if isinstance(nt, dict) else [float(nt)]
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
            if e["exc"]:
                break
        return dict(key=s["key"], w=F(w), forgets=[float(x) for x in fs], ev=ev)

    with ck.warmup():
        for c in counts[:5]:
            count(c)
    traces = finish_traces(ck.pool(length, lens), lens) + finish_traces(ck.pool(mean, means), means) + \
        finish_traces(ck.pool(count, counts), counts)
    ck.validate("C07Trace", traces)
    return ck.finish("model_checking", ["values and forget factors sampled, splits enumerated"])
