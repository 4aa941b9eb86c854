"""Recordings of predictions of distributional models (C13, C18)."""
import numpy as np
from core import F
from gamlss import scenario, setup
from dists import LAWS, npar
from util import batches, finish_traces


def scenarios(ck, cfgs, n):
    r = ck.rng("scn")
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    order = [int(i) for i in r.permutation(len(cfgs))]
    out = []
    for i in range(n):
        law = LAWS[i % len(LAWS)]
        P = npar(law)
        use = [cfgs[order[(i * 4 + p) % len(order)]] for p in range(P)]
        J = max([3] + [max(c["eq"] or [0]) for c in use])
        s = scenario(r, i, law=law, J=J, split_forget=bool(r.random() < 0.3), maxOuter=pick([2, 4, 8]), maxInner=pick([2, 5]), step=1.0, split_step=False,
                     cautious=False, hard=False, sizes=[int(r.integers(24, 40))] + [pick([1, 2, 5]) for _ in range(int(r.integers(0, 3)))])
        s["debug"] = False
        s["eqs"] = [([c - 1 for c in u["eq"]], u["icpt"]) for u in use]
        s["levels"] = use[0]["levels"]
        s["key"] += ":" + ";".join(("i" if u["icpt"] else "") + "".join(map(str, u["eq"])) for u in use)
        out.append(s)
    return out


def as_form(r, Q):
    """the same covariates in another container or memory layout"""
    import pandas as pd
    k = int(r.integers(5))
    if np.all(Q == np.round(Q)) and k < 4:
        return Q.astype([int, np.int32, np.int64, int][k])
    if k == 0:
        return Q.copy()
    if k == 1:
        return np.asfortranarray(Q)
    if k == 2:
        return np.repeat(Q, 2, axis=0)[::2]
    if k == 3:
        return pd.DataFrame(Q).to_numpy()
    return Q.tolist()


def record(ck, s, nlev):
    r, m, D, X, y, w, t = setup(ck, s, eqs=s["eqs"])
    P, J = len(t["links"]), X.shape[1]
    q = ck.rng("query", s["key"])
    ev = []

    def call(op, f, **kw):
        e = dict(op=op, exc="", **kw)
        try:
            with np.errstate(all="ignore"):
                e.update(f())
        except Exception as x:
            e["exc"] = type(x).__name__
        ev.append(e)
        return e

    for bi, (a, b) in enumerate(batches(s["sizes"])):
        def go():
            (m.fit if bi == 0 else m.update)(X[a:b], y[a:b], sample_weight=None if s["weights"] == "none" else w[a:b])
            return dict(coef=[F(np.asarray(m.coef_[p]).reshape(-1)) for p in range(P)])
        with np.errstate(all="ignore"):
            e = call("enter", go, n=b, coef=[])
        if e["exc"] or not all(np.all(np.isfinite(m.coef_[p])) for p in range(P)):
            ev.pop()
            break
        near = np.vstack([X[: 2], X[a:b][:2] + 0.3 * q.normal(size=X[a:b][:2].shape), q.normal(size=(2, J))])
        far = q.normal(size=(5, J)) * np.array([3, 10, 100, 1000, 1e4])[:, None]
        for Q in (near, far, np.round(near[-3:] * 3)):
            def params():
                form = as_form(q, Q)
                link = m.predict_distribution_parameters(form, what="link")
                resp = m.predict_distribution_parameters(form, what="response")
                both, contr = m.predict_distribution_parameters(form, return_contributions=True)
                link2, contr2 = m.predict_distribution_parameters(form, what="link", return_contributions=True)
                same = np.array_equal(both, resp) and np.array_equal(link, link2) and all(np.array_equal(u, v) for u, v in zip(contr, contr2))
                return dict(link=F(link), resp=F(resp), contr=[F(c) for c in contr], same=bool(same), shape=link.shape == (len(Q), P) and resp.shape == (len(Q), P))
            e = call("params", params, Q=F(Q))
            if e["exc"]:
                continue
            ref = np.array(m.predict_distribution_parameters(Q))
            allp = list(range(1, P + 1))
            call("again", lambda: dict(out=F(np.vstack([m.predict_distribution_parameters(Q[i:i + 1]) for i in range(len(Q))]))), ref=F(ref), params=allp, name="RowByRow")
            if bi == len(s["sizes"]) - 1 and Q is near:
                big = q.normal(size=(int(q.choice([1025, 2500, 4100])), J))
                at = q.permutation(len(big))[: len(Q)]
                big[at] = Q
                call("again", lambda: dict(out=F(m.predict_distribution_parameters(big)[at])), ref=F(ref), params=allp, name="AmongManyRows")
            perm = q.permutation(len(Q))
            call("again", lambda: dict(out=F(m.predict_distribution_parameters(Q[perm])[np.argsort(perm)])), ref=F(ref), params=allp, name="RowOrder")
            for p in range(P):
                others = [c for c in range(J) if c + 1 not in t["eq"][p]]
                if others:
                    Z = Q.copy()
                    Z[:, others] = q.normal(size=(len(Q), len(others))) * 50
                    call("again", lambda: dict(out=F(m.predict_distribution_parameters(Z))), ref=F(ref), params=[p + 1], name="ColumnsOutsideTheEquation")
        th = np.array(m.predict_distribution_parameters(near))

        def point():
            me, md = np.asarray(m.predict(near)), np.asarray(m.predict_median(near))
            return dict(mean=F(me.reshape(-1)), median=F(md.reshape(-1)), shape=me.shape == (len(near),) and md.shape == (len(near),))
        call("point", point, th=F(th))
        if bi == len(s["sizes"]) - 1:
            big = np.repeat(near[::-1], 250, axis=0)
            at = np.array([250 * (len(near) - 1 - i) + int(q.integers(250)) for i in range(len(near))])

            def many():
                me, md = np.asarray(m.predict(big)), np.asarray(m.predict_median(big))
                return dict(mean=F(me.reshape(-1)[at]), median=F(md.reshape(-1)[at]), shape=me.shape == (len(big),) and md.shape == (len(big),))
            call("point", many, th=F(th))

            def manyq():
                o = np.asarray(m.predict_quantile(big, np.array([0.7, 0.2])))
                ok = o.shape == (len(big), 2)
                return dict(out=F(o[at]) if ok else [], rows=len(at) if ok else -1, colsN=2)
            call("quantile", manyq, th=F(th), q=[0.7, 0.2])
        lev = np.array(s["levels"]) / (nlev + 1)
        one = F(th[:1])
        for v in (lev, 0.25):
            def single():
                o = np.asarray(m.predict_quantile(near[:1], v))
                return dict(out=F(o) if o.ndim == 2 else [], rows=int(o.shape[0]), colsN=int(o.shape[1]) if o.ndim == 2 else -1)
            call("quantile", single, th=one, q=F(np.atleast_1d(v)))
        for k, v in enumerate([lev, q.permutation(np.linspace(0.05, 0.95, len(near))), np.sort(q.uniform(0.02, 0.98, 3))[::-1].copy(), np.array([0.5, 0.001, 0.5, 0.999]), 0.5, float(q.uniform(0.05, 0.95))]):
            def quant():
                o = np.asarray(m.predict_quantile(near, v))
                return dict(out=F(o) if o.ndim == 2 else [], rows=int(o.shape[0]), colsN=int(o.shape[1]) if o.ndim == 2 else -1)
            call("quantile", quant, th=F(th), q=F(np.atleast_1d(v)))
    return dict(t, ev=ev)


def run(ck, focus, n):
    nlev = 4
    cfgs = ck.model("PredictMC", dict(J=3 if ck.quick else 4, NLevels=nlev))
    sc = scenarios(ck, cfgs, n)
    ex = lambda s: record(ck, dict(s), nlev)
    with ck.warmup():
        ex(next(s for s in sc if s["method"] == "mixed"))
    ck.validate("PredictTrace", finish_traces(ck.pool(ex, sc), sc), consts=dict(Focus='"%s"' % focus))
