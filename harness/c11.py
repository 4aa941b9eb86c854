"""C11: every distributional iteration solves the documented weighted regression."""
from gamlss import scenario, record
from util import finish_traces


def scenarios(ck):
    r = ck.rng("scn")
    out = [scenario(r, i) for i in range(96 if ck.quick else 600)]
    for i, law in enumerate(["Normal", "Logistic", "Gumbel", "NormalMeanVariance", "ReverseGumbel", "StudentT"] * (1 if ck.quick else 4)):
        # responses in other units: working weights up to and beyond their limits
        out.append(scenario(r, len(out), law=law, unit=[1e-4, 1e-6, 1e6, 1e5][(i + i // 6) % 4]))
    return out


def run(ck):
    ck.model("GamlssMC", dict(MaxOuter=2, MaxInner=3, NParam=2) if ck.quick else dict(MaxOuter=3, MaxInner=7, NParam=3))
    sc = scenarios(ck)
    ex = lambda s: record(ck, dict(s))
    with ck.warmup():
        ex(next(s for s in sc if s["method"] == "mixed"))
    ck.validate("GamlssTrace", finish_traces(ck.pool(ex, sc), sc), consts=dict(Focus='"C11"'))
    return ck.finish("model_checking", ["data sampled"])
