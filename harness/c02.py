"""C02: OnlineScaler."""
import numpy as np
from core import F
from util import make_weights, old, short, finish_traces


def scenarios(ck, splits):
    r = ck.rng("scn")
    out = []
    fset = [0.0, 1e-6, 0.01, 0.1, 0.5, 0.9]
    wset = ["none", "random", "zeros", "wide", "int"]
    sel = ["all", "mask", "index", "off", "perm", "one", "empty"]
    for rep in range(9 if ck.quick else 24):
        for s in splits:
            u = [1, 2, 3, 11, 29][int(r.integers(5))]
            out.append(dict(sizes=[max(2, s["sizes"][0] * u)] + [k * u for k in s["sizes"][1:]]))
    for f in range(3):
        out.append(dict(sizes=[2] + [1] * 80))
        out.append(dict(sizes=[150, 1, 99, 2, 1, 1, 300]))
    for f in (0.03, 0.1, 0.3):
        out.append(dict(sizes=[160, 1, 60, 1, 1, 40], old=f))
        out.append(dict(sizes=[250, 1], old=f))
    for i, s in enumerate(out):
        s.update(J=int(r.integers(1, 7)) if i % 30 != 7 else int(r.integers(10, 50)), forget=fset[int(r.integers(6))] if i % 4 else float(r.uniform(0, .95)),
                 weights=wset[i % 5], sel=sel[(i // 5) % 7], offset=[0.0, 1.0, 300.0][i % 3],
                 dtype={7: "f4", 3: "i8", 9: "i4", 11: "mix"}.get(i % 13, "f8"), fixed=int(i))
        if s.get("old"):
            s.update(forget=s["old"], weights="random", sel=["all", "mask"][i % 2], offset=1.0, dtype="f8")
        s["key"] = f"{i}:{short(s['sizes'])}:J{s['J']}:f{s['forget']:.4g}:{s['weights']}:{s['sel']}:{s['dtype']}{'old' if s.get('old') else ''}"
    return out


def run(ck):
    splits = ck.model("ScalerMC", dict(N=6 if ck.quick else 7, MinInit=1))
    from ondil.scaler import OnlineScaler
    from ondil.gram import init_forget_vector
    init_forget_vector(0.1, 3), init_forget_vector(0.0, 3)

    def execute(s):
        r = ck.rng("data", s["key"])
        n, J = sum(s["sizes"]), s["J"]
        X = r.normal(size=(n, J)) * np.exp(r.normal(size=J)) + r.normal(size=J) * s["offset"]
        w = make_weights(r, s["weights"], n, s["sizes"], 3)
        if s.get("old"):
            w = old(w, s["forget"])
        if s["sel"] == "all":
            ts, cols = True, list(range(J))
        elif s["sel"] == "off":
            ts, cols = False, []
        elif s["sel"] == "mask":
            ts = r.integers(2, size=J).astype(bool)
            cols = list(np.flatnonzero(ts))
        elif s["sel"] == "index":
            cols = sorted(r.permutation(J)[: int(r.integers(1, J + 1))].tolist())
            ts = np.array(cols)
        elif s["sel"] == "perm":
            cols = r.permutation(J)[: int(r.integers(1, J + 1))].tolist()
            ts = np.array(cols)
        elif s["sel"] == "one":
            cols = [int(r.integers(J))]
            ts = np.array(cols)
        else:
            cols, ts = [], np.zeros(J, dtype=bool)
        f4 = s["dtype"] == "f4"
        dt = np.float32 if f4 else np.float64
        ints = s["dtype"] in ("i8", "i4")
        X = (np.round(X * 20) if ints else X).astype(dt)
        cast = (lambda a: a.astype(s["dtype"])) if ints else (lambda a: a)
        if s["dtype"] == "mix":     # fractional values in the fit, whole numbers of an integer type later
            X[s["sizes"][0]:] = np.round(X[s["sizes"][0]:] * 3)
        sc = OnlineScaler(forget=s["forget"], to_scale=ts)
        ev, pos = [], 0
        for bi, k in enumerate(s["sizes"]):
            xb, wb = X[pos:pos + k], (None if s["weights"] == "none" else w[pos:pos + k])
            pos += k
            xb = cast(xb) if not (s["dtype"] == "mix" and bi) else xb.astype(int)
            e = dict(op="fit" if bi == 0 else "update", n=pos, exc="", mean=[], var=[], std=[], nobs=0.0)
            try:
                with np.errstate(all="ignore"):
                    if bi == 0:
                        sc.fit(xb, sample_weight=wb)
                    else:
                        sc.update(xb, sample_weight=wb)
                    if s["sel"] != "off":
                        e["mean"], e["var"], e["std"] = (F(np.asarray(v).reshape(-1)) for v in (sc.mean_, sc.var_, sc.std_))
                    e["nobs"] = float(sc.n_observations_)
            except Exception as x:
                e["exc"] = type(x).__name__
            ev.append(e)
            if e["exc"]:
                break
            if k > 1 or bi % 7 == 0 or bi == len(s["sizes"]) - 1:
                m = int(r.integers(1, 4))
                Z = (r.normal(size=(m, J)) * 2 + 1).astype(dt)
                if ints or s["dtype"] == "mix":
                    Z = np.round(Z * 5).astype("i8" if bi % 3 else "f8")
                if bi % 2:
                    Z = np.asfortranarray(Z)
                for op in ("transform", "inverse", "round"):
                    Zc = Z.copy()
                    e = dict(op=op, Z=F(Zc), out=[], same=True, exc="")
                    try:
                        with np.errstate(all="ignore"):
                            if op == "transform":
                                o = sc.transform(Z)
                            elif op == "inverse":
                                o = sc.inverse_transform(Z)
                            else:
                                o = sc.inverse_transform(sc.transform(Z))
                        e["out"] = F(o)
                        e["same"] = bool(np.array_equal(Z, Zc))
                    except Exception as x:
                        e["exc"] = type(x).__name__
                    # a column with zero discounted variance cannot be standardised
                    ok = s["sel"] == "off" or bool(np.all(np.asarray(sc.var_) > 1e-6))
                    if ok:
                        ev.append(e)
        return dict(key=s["key"], X=F(X), w=F(w), forget=float(s["forget"]), cols=[int(c) + 1 for c in cols],
                    scale=s["sel"] != "off", tol=1e-4 if f4 else 1e-10, ev=ev)

    sc = scenarios(ck, splits)
    traces = ck.pool(execute, sc)
    finish_traces(traces, sc)
    ck.validate("C02Trace", traces)
    return ck.finish("model_checking", ["data sampled, splits enumerated", "columns with vanishing variance are not standardised"])
