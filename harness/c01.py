"""C01: Gram accumulators."""
import numpy as np
from core import F
from util import short, old, finish_traces


def routes():
    from ondil import gram as gm
    from ondil.methods import OrdinaryLeastSquares, LassoPath, Ridge, ElasticNetPath
    gr = {"gram.py": (lambda X, w, f: gm.init_gram(X, w, f), lambda G, X, w, f: gm.update_gram(G, X, f, w))}
    cr = {"gram.py": (lambda X, y, w, f: gm.init_y_gram(X, y, w, f), lambda h, X, y, w, f: gm.update_y_gram(h, X, y, f, w))}
    iv = {"gram.py": (lambda X, w, f: gm.init_inverted_gram(X, w, f), lambda G, X, w, f: gm.update_inverted_gram(G, X, f, w))}
    for name, m, d in (("lasso", LassoPath(), gr), ("ridge", Ridge(), gr), ("elasticnet", ElasticNetPath(alpha=0.5), gr),
                       ("ols", OrdinaryLeastSquares(), iv)):
        d[name] = (lambda X, w, f, m=m: m.init_x_gram(X=X, weights=w, forget=f),
                   lambda G, X, w, f, m=m: m.update_x_gram(gram=G, X=X, weights=w, forget=f))
        cr[name] = (lambda X, y, w, f, m=m: m.init_y_gram(X=X, y=y, weights=w, forget=f),
                    lambda h, X, y, w, f, m=m: m.update_y_gram(gram=h, X=X, y=y, weights=w, forget=f))
    return gr, cr, iv


def data(ck, scn):
    r = ck.rng("data", scn["key"])
    n, J = sum(scn["sizes"]), scn["J"]
    X = r.normal(size=(n, J)) * np.exp(r.normal(size=J)) + r.normal(size=J)
    if scn["intercept"]:
        X[:, 0] = 1.0
    y = r.normal(size=n) * 3 + r.normal()
    kind = scn["weights"]
    w = {"ones": np.ones(n), "random": r.uniform(0.1, 3, n), "zeros": np.where(r.uniform(size=n) < 0.3, 0.0, r.uniform(0.5, 2, n)),
         "wide": np.exp(r.normal(size=n) * 3)}[kind]
    if scn.get("old"):  # observations long ago weigh as much as recent ones after discounting
        w = old(w, scn["forget"])
    w[: J + 2] = np.maximum(w[: J + 2], 0.3)
    if scn["layout"] == "F":
        X = np.asfortranarray(X)
    return X, y, w


def scenarios(ck, splits):
    out = []
    fset = [0.0, 1e-6, 0.01, 0.1, 0.5, 0.9]
    wset = ["ones", "random", "zeros", "wide"]
    r = ck.rng("scn")
    unit = [1, 1, 3, 17] if ck.quick else [1, 1, 2, 5, 17, 40]
    for s in splits:
        for u in unit:
            sizes = [max(1, k * u if i else k * u) for i, k in enumerate(s["sizes"])]
            J = int(r.integers(1, 6))
            sizes[0] = max(sizes[0], J + 2)
            out.append(dict(sizes=sizes, J=J))
    # long one-row streams and single rows after big blocks
    for J in (1, 2, 4):
        out.append(dict(sizes=[J + 3] + [1] * 60, J=J))
        out.append(dict(sizes=[200, 1, 150, 2, 1, 1, 64], J=J))
    for J in (9, 14, 22):
        out.append(dict(sizes=[3 * J, 1, J, 1], J=J))
    for f in (0.03, 0.1, 0.3):
        out.append(dict(sizes=[120, 1, 40, 1, 1, 80], J=2, old=f))
        out.append(dict(sizes=[240, 20, 1], J=3, old=f))
    for i, s in enumerate(out):
        s["forget"] = fset[i % len(fset)] if i % 5 else float(r.uniform(0, 0.6))
        s["weights"] = wset[(i // len(fset)) % len(wset)]
        if s.get("old"):
            s["forget"], s["weights"] = s["old"], "random"
        s["intercept"] = bool(r.integers(2))
        s["layout"] = "F" if i % 9 == 4 else "C"
        s["key"] = f"{i}:{short(s['sizes'])}:J{s['J']}:f{s['forget']:.4g}:{s['weights']}:{s['layout']}{'old' if s.get('old') else ''}"
    return out


def run(ck):
    splits = ck.model("DiscountMC", dict(N=7 if ck.quick else 9, J=2, MinInit=1))
    gr, cr, iv = routes()
    # compile once before forking
    with ck.warmup():
        for lay in ("C", "F"):
            X = np.array([[1.0, 2.0], [3.0, 4.0], [5.0, 7.0]], order=lay)
            y, w = np.ones(3), np.ones(3)
            for a, b in list(gr.values())[:1] + list(iv.values())[:1]:
                G = a(X, w, 0.1)
                b(G, X, w, 0.1), b(G, X[:1], w[:1], 0.1)
                if (a, b) == gr['gram.py']:
                    b(G, X[:1], 1.0, 0.1)
            for a, b in list(cr.values())[:1]:
                h = a(X, y, w, 0.1)
                b(h, X, y, w, 0.1), b(h, X[:1], y[:1], w[:1], 0.1)

    def execute(scn):
        X, y, w = data(ck, scn)
        f = scn["forget"]
        ev, st = [], {}
        pos = 0
        for bi, k in enumerate(scn["sizes"]):
            xb, yb, wb = X[pos:pos + k], y[pos:pos + k], w[pos:pos + k]
            if scn["layout"] == "F":
                xb = np.asfortranarray(xb)
            pos += k
            e = dict(op="init" if bi == 0 else "update", n=pos, exc="", gram={}, cross={}, inv={})
            for kind, rs in (("gram", gr), ("inv", iv), ("cross", cr)):
                for name, (ini, upd) in rs.items():
                    try:
                        with np.errstate(all="ignore"):
                            if kind == "cross":
                                v = ini(xb, yb, wb, f) if bi == 0 else upd(st[kind, name], xb, yb, wb, f)
                            elif k == 1 and bi % 2 and name == "gram.py" and kind == "gram":
                                v = upd(st[kind, name], xb, float(wb[0]), f)
                            else:
                                v = ini(xb, wb, f) if bi == 0 else upd(st[kind, name], xb, wb, f)
                        st[kind, name] = v
                        a = np.asarray(v, dtype=float)
                        if kind == "cross":
                            a = a.reshape(-1)
                        e[kind][name] = F(a)
                    except Exception as x:
                        if kind == "inv" and bi == 0:
                            # an ill-conditioned start may be refused; then there is nothing to compare
                            st[kind, name] = None
                            if not isinstance(x, ValueError):
                                e["exc"] = f"{kind}:{name}:{type(x).__name__}"
                        elif kind == "inv" and st.get((kind, name)) is None:
                            pass
                        else:
                            e["exc"] = f"{kind}:{name}:{type(x).__name__}"
            ev.append(e)
            if e["exc"]:
                break
        return dict(key=scn["key"], X=F(X), y=F(y), w=F(w), forget=float(f), ev=ev)

    def singular(scn):
        X = np.array(scn["X"], dtype=float)
        w = np.array(scn["w"], dtype=float)
        oc = {}
        for name, (ini, _) in iv.items():
            try:
                ini(X, w, scn["forget"])
                oc[name] = "returned"
            except Exception as x:
                oc[name] = type(x).__name__
        return dict(key=scn["key"], X=F(X), y=F(np.zeros(len(X))), w=F(w), forget=float(scn["forget"]),
                    ev=[dict(op="singular", outcome=oc)])

    sc = scenarios(ck, splits)
    traces = ck.pool(execute, sc)
    finish_traces(traces, sc)
    # exactly singular Gram matrices: too few rows, repeated columns, zero weights, zero columns
    sing = []
    r = ck.rng("singular")
    for i in range(24 if ck.quick else 120):
        J = int(r.integers(2, 6))
        kind = i % 4
        n = J + 6
        X = r.integers(-3, 4, size=(n, J)).astype(float)
        w = np.ones(n)
        if kind == 0:
            X, w = X[: J - 1], w[: J - 1]
        elif kind == 1:
            X[:, -1] = X[:, 0] * 2
        elif kind == 2:
            w[J - 1:] = 0
        else:
            X[:, int(r.integers(J))] = 0
        sing.append(dict(key=f"singular{i}:{kind}", X=X.tolist(), w=w.tolist(), forget=[0.0, 0.0, 0.5][i % 3]))
    traces += ck.pool(singular, sing)
    ck.validate("C01Trace", traces)
    return ck.finish("model_checking", ["data values are sampled; batch splits up to the model's N rows are enumerated",
                                        "inverse compared only while the exact condition number stays below 1e7"])
