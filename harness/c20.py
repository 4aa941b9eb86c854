"""C20: per-parameter settings reach exactly the parameter they name."""
import numpy as np
import life
from gamlss import scenario, record, DEFAULTS
from util import finish_traces

LAW = {1: ["Exponential"], 2: ["Normal", "Gamma"], 3: ["StudentT", "ZeroAdjustedGamma"], 4: ["JSU", "BetaInflated"]}


def concrete(r, name, v):
    """(object, label) for an abstract value"""
    from ondil.methods import LassoPath, Ridge, OrdinaryLeastSquares
    J = life.J
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    if name == "equation":
        forms = {"d": ["intercept"], "a": ["all", np.arange(J), np.ones(J, bool)], "b": [np.array([0, 2]), np.array([True, False, True])], "-": ["intercept"]}[v]
        return pick(forms), {"d": "intercept", "a": "all", "b": "0,2"}[v]
    if name == "method":
        make = {"d": pick([lambda: "ols", OrdinaryLeastSquares]), "a": lambda: LassoPath(lambda_n=6, lambda_eps=1e-2), "b": lambda: Ridge(lambda_reg=2.0)}[v]
        return make(), v
    x = {"forget": dict(d=0.0, a=0.05, b=0.2), "fit_intercept": dict(d=True, a=False, b=False), "regularize_intercept": dict(d=False, a=True, b=True),
         "ic": dict(d="aic", a="bic", b="max"), "step_size": dict(d=1.0, a=0.5, b=0.8)}[name][v]
    return x, str(x)


def give(r, name, f):
    """the setting as written by the user and as described to the specification"""
    if f["form"] == "none":
        return None, dict(form="map", m=[dict(p=p + 1, v="all" if p == 0 else "intercept") for p in range(f["np"])])
    if f["form"] == "single":
        x, lab = concrete(r, name, f["v"])
        return x, dict(form="single", v=lab)
    d, m = {}, []
    for e in f["m"]:
        x, lab = concrete(r, name, e["v"])
        d[int(e["p"]) - 1] = x
        m.append(dict(p=int(e["p"]), v=lab))
    return d, dict(form="map", m=m)


def execute(ck, t):
    from ondil.estimators import OnlineDistributionalRegression as DR
    from ondil import distributions as D
    from ondil.methods import LassoPath
    law, name, P = t["law"], t["setting"], t["np"]
    rec = life.Recorder(ck, t["key"], dict(name=t["key"], kind="dr", law=law))
    r = ck.rng("c20", t["key"])
    others = dict(equation={p: "all" for p in range(P)}, forget={p: 0.02 * p for p in range(P)}, ic={p: "hqc" for p in range(P)}, step_size={p: 0.9 for p in range(P)},
                  method={p: LassoPath(lambda_n=6, lambda_eps=1e-2) if name in ("ic", "regularize_intercept") else "ols" for p in range(P)})
    rule = "global_ll" if r.random() < 0.3 else "local_rss"
    others.pop(name, None)
    for f in t["forms"]:
        given, desc = give(r, name, f)
        desc["d"] = [concrete(r, name, "d")[1]] * P
        rec.m, rec.of, rec.bundles, rec.cur, rec.orig = {}, {1: rec.cfg}, [], {}, {}
        rec.ev.append(dict(op="begin", ib="", ia="", sb="", sa=""))
        make = lambda: rec.m.__setitem__(1, DR(distribution=getattr(D, law)(), **{name: given}, **others, max_it_outer=3, max_it_inner=3, model_selection=rule, verbose=0))
        rec.ev.append(rec.watch(1, make, dict(op="new", id=1, cfg="base", np=P, settings={name: desc})))
        for b, how in ((1, "fit"), (4, "update"), (3, "update")):
            rec.step(dict(op="call", id=1, name=how, b=b))
    return dict(key=t["key"], obs=rec.obs, ev=rec.ev)


def run(ck):
    top = 3 if ck.quick else 4
    forms = ck.model("SettingsMC", dict(MaxNP=top, Values='{"a","b"}'))
    r = ck.rng("forms")
    tasks = []
    for P in range(1, top + 1):
        for name in DEFAULTS:
            here = [f for f in forms if f["np"] == P and not (name == "equation" and f["form"]["form"] == "single")]
            for law in LAW[P][:1 + (not ck.quick)] if not (ck.quick and P == 2) else LAW[P]:
                groups = {}
                for i in r.permutation(len(here)):
                    groups.setdefault(tuple(here[i]["res"]), []).append(here[i]["form"])
                out = []
                # resolutions with several different forms first
                for res, fs in sorted(groups.items(), key=lambda g: (-len({len(f.get("m", [])) for f in g[1]}), r.random())):
                    kinds = {}
                    for f in fs:  # one of every kind: single, mappings by number of keys, in order or not
                        ps = [e["p"] for e in f.get("m", [])]
                        kinds.setdefault((f["form"], len(ps), ps == sorted(ps)), f)
                    out += [{"form": "map", "m": [dict(p=p + 1, v=v) for p, v in enumerate(res)]}] + list(kinds.values())
                if name == "equation":
                    out = [dict(form="none", np=P), {"form": "map", "m": [dict(p=p + 1, v="a" if p == 0 else "d") for p in range(P)]}] + out
                n = 16 if ck.quick else 150
                tasks.append(dict(law=law, setting=name, np=P, forms=out[:n], key=f"{law}:{name}"))
    ex = lambda t: execute(ck, t)
    sc = [scenario(r, i, forms=True, **({"method": "mixed"} if i % 2 else {}), split_forget=bool(i % 3), split_step=bool(i % 2)) for i in range(42 if ck.quick else 300)]
    with ck.warmup():
        record(ck, dict(next(s for s in sc if s["method"] == "mixed")))
    done = ck.pool(lambda s: record(ck, dict(s)) if "setting" not in s else ex(s), sc + tasks)
    ck.validate("GamlssTrace", finish_traces(done[:len(sc)], sc), consts=dict(Focus='"C20"'))
    ck.validate("EstimatorTrace", finish_traces(done[len(sc):], tasks))
    return ck.finish("model_checking", ["all forms of a setting for up to 3 (thorough 4) parameters and three values are enumerated by the model; forms with the same resolution are replayed on real models",
                                        "observations of equivalent models compared up to rounding (relative 1e-7)", "data sampled"])
