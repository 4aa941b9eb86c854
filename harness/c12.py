"""C12: distributional fitting respects its iteration budgets and acceptance rules."""
from gamlss import scenario, record, CONTINUOUS
from util import finish_traces


def scenarios(ck, cfgs):
    r = ck.rng("scn")
    pick = lambda xs: xs[int(r.integers(len(xs)))]
    out = []
    reps = 1 if ck.quick else 8
    for rep in range(reps):
        for c in cfgs:
            i = len(out)
            fix = dict(maxOuter=c["maxOuter"], maxInner=c["maxInner"], minO=c["min"], preI=c["single"] if c["kind"] == "fit" else pick([0, 0, 1]),
                       preU=c["single"] if c["kind"] == "update" else pick([0, 0, 1]))
            if i % 5 == 4:
                fix.update(cautious=True, law=pick([d for d in CONTINUOUS if d not in ("JSU",)]), hard=True, maxOuter=pick([2, 4, 6]))
            if i % 7 == 3:   # halvings: steps that are far too long, many inner iterations
                fix.update(maxInner=pick([6, 8, 10]), absI=0.0, relI=0.0, step=pick([3.0, 4.0, 1.9]), law=pick(["Normal", "Logistic", "Gamma", "LogNormal", "Gumbel"]), method="ols")
            if i % 7 == 5:   # nothing but the budget stops
                fix.update(absI=0.0, relI=0.0, absO=0.0, relO=0.0)
            out.append(scenario(r, i, **fix))
    return out


def run(ck):
    cfgs = ck.model("GamlssMC", dict(MaxOuter=2, MaxInner=3, NParam=2) if ck.quick else dict(MaxOuter=3, MaxInner=7, NParam=3))
    if ck.quick:
        ck.model("GamlssMC", dict(MaxOuter=1, MaxInner=8, NParam=1))
    sc = scenarios(ck, cfgs)
    ex = lambda s: record(ck, dict(s))
    with ck.warmup():
        ex(next(s for s in sc if s["method"] == "mixed"))
    ck.validate("GamlssTrace", finish_traces(ck.pool(ex, sc), sc), consts=dict(Focus='"C12"'))
    return ck.finish("model_checking", ["settings enumerated by the model, further settings and data sampled",
                                        "a trace is judged until the fit diverges numerically (linear predictors beyond 20 on a log scale)"])
