"""Estimator objects: configurations, batches, observations and recordings (C08, C09, C10, C17, C20)."""
import copy
import hashlib
import pickle
import zlib
import numpy as np
from core import F
from gamlss import data

J = 3
MORE = (3, 4)  # updates at the end of every path


class Bundle:
    """the objects a user hands to constructors"""

    def __init__(self, law="Normal"):
        from ondil.methods import LassoPath, ElasticNetPath, Ridge, OrdinaryLeastSquares
        from ondil import distributions as D
        self.law = law
        self.lo = np.array([-np.inf, -0.6, -np.inf, 0.0])
        self.hi = np.array([np.inf, np.inf, 0.8, np.inf])
        self.lasso = LassoPath(lambda_n=8, lambda_eps=1e-3, start_value_update="average")
        self.bounded = LassoPath(lambda_n=6, lambda_eps=1e-2, beta_lower_bound=self.lo, beta_upper_bound=self.hi)
        self.enet = ElasticNetPath(alpha=0.4, lambda_n=6, lambda_eps=1e-2, early_stop=2)
        self.ridge = Ridge()
        self.ols = OrdinaryLeastSquares()
        self.mask = np.array([True, False, True])
        self.idx = np.array([2, 0])
        self.dist = getattr(D, law)()
        n = self.dist.n_params
        self.eq = {0: np.array([2, 0]), 1: np.array([True, False, True])}
        self.forget = {0: 0.05, 1: 0.01}
        self.meth = {0: self.lasso, 1: self.ols}
        self.icpt = {0: True}
        self.ics = {1: "bic", 0: "hqc"}
        self.steps = {0: 0.8}
        if n > 1:
            self.eqall = {p: "all" if p == 0 else "intercept" for p in range(n)}
        self.order = np.arange(n)[::-1].copy()


def quiet(**kw):
    return dict(dict(verbose=0, max_it_outer=4, max_it_inner=4), **kw)


def configs():
    from ondil.estimators import OnlineLinearModel, OnlineLasso, OnlineDistributionalRegression as DR
    from ondil.scaler import OnlineScaler
    c = {}
    add = lambda name, kind, law, make, fails=(): c.__setitem__(name, dict(name=name, kind=kind, law=law, make=make, fails=list(fails)))
    add("lm_ols", "lm", "Normal", lambda b: OnlineLinearModel(method="ols", forget=0.02, scale_inputs=b.mask), ["few", "singular", "features-"])
    add("lm_olsobj", "lm", "Normal", lambda b: OnlineLinearModel(method=b.ols, scale_inputs=b.idx, fit_intercept=False), ["singular", "features-"])
    add("lm_lasso", "lm", "Normal", lambda b: OnlineLinearModel(method=b.lasso, forget=0.05, ic="aic"), ["one"])
    add("lm_bounded", "lm", "Normal", lambda b: OnlineLinearModel(method=b.bounded, scale_inputs=False, ic="max"))
    add("lm_enet", "lm", "Normal", lambda b: OnlineLinearModel(method=b.enet, regularize_intercept=True))
    add("lm_ridge", "lm", "Normal", lambda b: OnlineLinearModel(method=b.ridge, forget=0.1))
    add("lm_str", "lm", "Normal", lambda b: OnlineLinearModel(method="lasso"))
    add("lasso", "lm", "Normal", lambda b: OnlineLasso(lambda_n=7, forget=0.01, beta_lower_bound=b.lo, beta_upper_bound=b.hi))
    add("scaler", "scaler", "Normal", lambda b: OnlineScaler(forget=0.05), ["onerow"])
    add("scaler_mask", "scaler", "Normal", lambda b: OnlineScaler(to_scale=b.mask), ["features-", "onerow"])
    add("scaler_idx", "scaler", "Normal", lambda b: OnlineScaler(forget=0.1, to_scale=b.idx), ["features-2"])
    add("gam_def", "dr", "Normal", lambda b: DR(distribution=b.dist, **quiet()), ["singular"])
    add("gam_dicts", "dr", "Normal", lambda b: DR(distribution=b.dist, equation=b.eq, forget=b.forget, method=b.meth, fit_intercept=b.icpt, ic=b.ics, step_size=b.steps, **quiet(scale_inputs=b.mask)), ["features-"])
    add("gam_lasso", "dr", "Normal", lambda b: DR(distribution=b.dist, equation={0: "all", 1: "all"}, method=b.lasso, forget=0.02, **quiet(model_selection="global_ll")))
    add("gam_bounded", "dr", "Normal", lambda b: DR(distribution=b.dist, equation={0: "all", 1: "all"}, method={0: b.bounded, 1: b.ridge}, **quiet(prefit_initial=1, prefit_update=1)))
    add("gam_gamma", "dr", "Gamma", lambda b: DR(distribution=b.dist, equation=b.eq, method=b.lasso, ic="bic", **quiet(param_order=b.order)), ["support"])
    add("gam_beinf", "dr", "BetaInflated", lambda b: DR(distribution=b.dist, equation=b.eqall, method="ols", forget=0.01, **quiet(cautious_updates=True)), ["support", "support1"])
    add("gam_caut", "dr", "Normal", lambda b: DR(distribution=b.dist, equation=b.eqall, method={0: b.ols, 1: b.ols}, **quiet(cautious_updates=True, max_it_outer=10, prefit_initial=2)))
    add("gam_caut2", "dr", "Logistic", lambda b: DR(distribution=b.dist, equation=b.eqall, forget=0.02, **quiet(cautious_updates=True, max_it_outer=10, rel_tol_outer=0.02)))
    add("gam_prefit", "dr", "Normal", lambda b: DR(distribution=b.dist, equation=b.eqall, method={0: b.ols, 1: b.ols}, forget=0.03, **quiet(max_it_outer=10, prefit_initial=3, rel_tol_outer=0.05, abs_tol_outer=0.05)))
    add("gam_t", "dr", "StudentT", lambda b: DR(distribution=b.dist, equation=b.eqall, method={0: b.enet, 1: b.ols, 2: "ols"}, **quiet(debug=True)))
    add("gam_zaga", "dr", "ZeroAdjustedGamma", lambda b: DR(distribution=b.dist, equation=b.eqall, **quiet()), ["support"])
    return c


# configurations whose settings fit any number of columns, and other settings to give before the second fit batch
WIDE = {"lm_olsobj", "lm_lasso", "lm_enet", "lm_ridge", "lm_str", "scaler", "scaler_idx", "gam_def", "gam_lasso", "gam_caut", "gam_caut2", "gam_prefit", "gam_t", "gam_zaga", "gam_beinf"}
ALTER = {"lm_ols": dict(forget=0.15, fit_intercept=False), "lm_olsobj": dict(scale_inputs=True, fit_intercept=True), "lm_lasso": dict(ic="bic", forget=0.0, scale_inputs=False),
         "lm_bounded": dict(ic="aic", scale_inputs=True, forget=0.1), "lm_enet": dict(regularize_intercept=False, forget=0.05), "lm_ridge": dict(fit_intercept=False),
         "lm_str": dict(method="ols"), "lasso": dict(lambda_n=5, forget=0.1, ic="aic"), "scaler": dict(forget=0.3), "scaler_mask": dict(to_scale=True, forget=0.2),
         "scaler_idx": dict(to_scale=False), "gam_def": dict(forget=0.05, equation={0: "intercept", 1: "all"}), "gam_dicts": dict(forget=0.1, ic="aic", fit_intercept=True),
         "gam_lasso": dict(model_selection="local_rss", ic="bic"), "gam_bounded": dict(method="ols", forget=0.05), "gam_gamma": dict(method="ols", param_order=None),
         "gam_beinf": dict(forget=0.0, equation={0: "intercept", 1: "intercept", 2: "all", 3: "intercept"}), "gam_caut": dict(forget=0.1, cautious_updates=False),
         "gam_t": dict(method="ols", step_size=0.7), "gam_zaga": dict(forget=0.1, scale_inputs=False)}


def make_batches(r, law):
    """1, 2: batches to fit with; 3, 4: batches to update with; Q: query rows"""
    out = {}
    for b, n in ((1, 24), (2, 30), (3, 1), (4, 5)):
        X, y = data(r, law, n, J)
        w = None if b in (1, 3) else r.uniform(0.5, 2, n)
        X = np.hstack([X, r.normal(size=(n, 1)) + 0.4])  # a spare column for fits with more columns
        if b == 4 and law in ("Normal", "Logistic"):
            y[2] += 12 * np.std(y) + 3  # an outlier, for cautious updates
        out[b] = (X, y, w)
    X, y = data(r, law, 4, J)
    out["Q"] = (np.hstack([X, r.normal(size=(4, 1))]), y)
    return out


def digest(*objs):
    h = hashlib.sha256()

    def go(o, depth=0):
        if depth > 12:
            return
        if isinstance(o, np.ndarray):
            h.update(repr((str(o.dtype), o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()).encode())
        elif isinstance(o, dict):
            h.update(b"{")
            for k, v in o.items():
                h.update(repr(k).encode())
                go(v, depth + 1)
            h.update(b"}")
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for v in o:
                go(v, depth + 1)
            h.update(b"]")
        elif o is None or isinstance(o, (bool, int, float, str, np.generic)):
            h.update(repr(o).encode())
        elif hasattr(o, "__dict__"):
            h.update(type(o).__name__.encode())
            go(vars(o), depth + 1)
        else:
            h.update(repr(type(o)).encode())
    go(objs)
    return h.hexdigest()[:16]


def observe(kind, m, Q):
    """everything the object reports and predicts, as one vector"""
    X, y = Q
    v = []
    put = lambda a: v.append(np.asarray(a, dtype=float).reshape(-1))
    put(m.n_observations_)
    put(m.n_samples_)
    put(float(m.is_fitted))
    if kind == "scaler":
        for a in (m.mean_, m.var_, m.std_, m.transform(X), m.inverse_transform(X)):
            put(a)
    elif kind == "lm":
        put(m.n_training_)
        put(m.coef_)
        put(m.beta)
        put(m.predict(X))
        put(m.score(X, y))
        if getattr(m, "coef_path_", None) is not None:
            put(m.coef_path_)
            put(m.predict_path(X))
    else:
        for p in sorted(m.coef_):
            put(m.coef_[p])
            put(m.n_training_[p])
            if m.coef_path_[p] is not None:
                put(m.coef_path_[p])
        put(m.predict_distribution_parameters(X))
        put(m.predict_distribution_parameters(X, what="link"))
        put(m.predict(X))
        put(m.predict_median(X))
        put(m.predict_quantile(X, np.array([0.1, 0.9])))
    return np.concatenate(v)


def unfitted(kind, m, Q):
    """the error every prediction method raises"""
    X, y = Q
    calls = {"scaler": [lambda: m.transform(X), lambda: m.inverse_transform(X)],
             "lm": [lambda: m.predict(X), lambda: m.score(X, y), lambda: m.predict_path(X)],
             "dr": [lambda: m.predict(X), lambda: m.predict_distribution_parameters(X), lambda: m.predict_median(X), lambda: m.predict_quantile(X, 0.5)]}[kind]
    names = set()
    for f in calls:
        try:
            f()
            names.add("none")
        except Exception as x:
            names.add(type(x).__name__)
    return names.pop() if len(names) == 1 else "/".join(sorted(names))


def broken(kind, X, y, w, law):
    """(X, y, w) that has to be rejected"""
    X, y = X.copy(), y.copy()
    w = None if w is None else w.copy()
    k, n = kind, len(y)
    if k == "features+":
        X = np.hstack([X, X[:, :1]])
    elif k == "features-":
        X = X[:, :-1]
    elif k == "features-2":
        X = X[:, :1]
    elif k == "length":
        y = np.concatenate([y, y[:1]])
    elif k in ("nanX", "infX"):
        X[n // 2, 1] = np.nan if k == "nanX" else np.inf
    elif k in ("nanY", "infY"):
        y[n - 1] = np.nan if k == "nanY" else np.inf
    elif k == "weights":
        w = np.ones(n + 1)
    elif k == "oned":
        X = X[:, 0]
    elif k == "empty":
        X, y, w = X[:0], y[:0], None
    elif k == "support":
        y[n - 1] = -0.5
    elif k == "support1":
        y[0] = 1.25
    elif k == "few":
        X, y, w = X[:3], y[:3], None
    elif k == "one":
        X, y, w = X[:1], y[:1], None
    elif k == "onerow":
        X, y, w = X[:1], y[:1], None
    elif k == "singular":
        X[:, 2] = X[:, 0] if True else X[:, 2]
        X[:, 1] = 2 * X[:, 0]
    return X, y, w


REJECT = ["features+", "features-", "length", "nanX", "infX", "nanY", "infY", "weights", "oned", "empty"]
SUPPORT = {"Gamma": ["support"], "BetaInflated": ["support", "support1"], "ZeroAdjustedGamma": ["support"]}


def reject_kinds(cfg):
    if cfg["kind"] == "scaler":
        return ["features+", "features-", "nanX", "infX", "weights", "oned", "empty"]
    return REJECT + SUPPORT.get(cfg["law"], []) * 3


def fail_kinds(cfg):
    base = ["nanX", "weights", "oned", "empty"] if cfg["kind"] == "scaler" else ["length", "nanX", "nanY", "weights", "empty"]
    return base + cfg["fails"] * 3


class Recorder:
    """runs call sequences of one configuration and records one trace"""

    def __init__(self, ck, key, cfg, second=None):
        self.r = ck.rng("life", key)
        self.cfg, self.cfg2 = cfg, second or cfg
        self.batches = make_batches(self.r, cfg["law"])
        self.table, self.obs, self.ev = {}, [], []
        self.layout = int(self.r.integers(3))
        # variants of the second fit batch: it has one more column, or other settings are set before it
        self.wide = bool(self.r.integers(2)) and self.cfg["name"] in WIDE and self.cfg2["name"] in WIDE
        self.alter = bool(self.r.integers(2))
        self.kinds = [int(self.r.integers(1000)), int(self.r.integers(1000))]

    def intern(self, v):
        b = v.tobytes()
        if b not in self.table:
            self.obs.append(F(v))
            self.table[b] = len(self.obs)
        return self.table[b]

    def query(self, id):
        X, y = self.batches["Q"]
        return X[:, :self.cur.get(id, J)].copy(), y.copy()

    def prepare(self, id, o):
        """before a fit: the settings and the number of columns that go with the batch"""
        if o["b"] not in (1, 2):
            return
        self.cur[id] = J + (self.wide and o["b"] == 2)
        alt = ALTER.get(self.of[id]["name"])
        if self.alter and alt:
            m = self.m[id]
            if id not in self.orig:
                self.orig[id] = {k: getattr(m, k) for k in alt}
            m.set_params(**(alt if o["b"] == 2 else self.orig[id]))

    def next_kind(self, which, kinds):
        self.kinds[which] += 1
        return kinds[self.kinds[which] % len(kinds)]

    def watch(self, id, f, e, inputs=()):
        """one call with digests of inputs and settings around it"""
        m = self.m.get(id)
        settings = lambda: digest([vars(b) for b in self.bundles], [x.get_params(deep=False) for x in [self.m.get(id, m)] if x is not None])
        sb, ib = settings(), digest(*inputs)
        exc = ""
        try:
            with np.errstate(all="ignore"):
                f()
        except Exception as x:
            exc = type(x).__name__
        sa = settings() if m is not None else sb
        e.update(exc=exc, sb=sb, sa=sa, ib=ib, ia=digest(*inputs))
        return e

    def see(self, id, e):
        """observe the object after the call"""
        c = self.of[id]
        e["obs"], e["unfitted"] = 0, ""
        if e["op"] == "call" and e["exc"]:  # the error is what is observed
            e["obs"] = self.intern(np.array([-777.0, float(zlib.crc32(e["exc"].encode()))]))
            self.ev.append(e)
            return
        try:
            with np.errstate(all="ignore"):
                e["obs"] = self.intern(observe(c["kind"], self.m[id], self.query(id)))
        except Exception as x:
            if e["exc"] == "" and e["op"] not in ("fail", "copy"):
                e["exc"] = type(x).__name__
        if e["op"] in ("fail", "copy"):
            e["unfitted"] = unfitted(c["kind"], self.m[id], self.query(id))
        self.ev.append(e)

    def begin(self, ids, share=False, apart=False):
        """apart: every distribution parameter gets its own method object"""
        self.m, self.of, self.bundles = {}, {}, []
        self.cur, self.orig = {}, {}
        self.ev.append(dict(op="begin", ib="", ia="", sb="", sa=""))
        b = None
        for id in ids:
            c = self.cfg if id == 1 else self.cfg2
            if b is None or not share:
                b = Bundle(c["law"])
                self.bundles.append(b)
            self.of[id] = c
            def make(id=id, c=c, b=b):
                m = c["make"](b)
                if apart and c["kind"] == "dr" and not isinstance(m.method, dict):
                    m.method = {p: copy.deepcopy(m.method) for p in range(m.distribution.n_params)}
                self.m[id] = m
            self.ev.append(self.watch(id, make, dict(op="new", id=id, cfg=c["name"])))

    def args(self, b, cols):
        X, y, w = self.batches[b]
        X = X[:, :cols]
        k = (self.layout + b) % 3  # the same layout for the same batch: another one rounds differently, and stopping rules may amplify that
        X = X.copy() if k == 0 else np.asfortranarray(X) if k == 1 else np.repeat(X, 2, axis=0)[::2]
        return X, y.copy(), None if w is None else w.copy()

    def invoke(self, id, name, X, y, w):
        m = self.m[id]
        f = {"fit": "fit", "update": "update", "partial": "partial_fit"}[name]
        with np.testing.suppress_warnings() as s:
            s.filter(UserWarning)
            s.filter(RuntimeWarning)
            getattr(m, f)(X, y, sample_weight=w)

    def step(self, o):
        id = o["id"]
        if o["op"] == "call":
            self.prepare(id, o)
            if o.get("fresh") and self.alter:  # the constructor gets the settings
                from sklearn.base import clone
                self.m[id] = clone(self.m[id])
            X, y, w = self.args(o["b"], self.cur[id])
            e = self.watch(id, lambda: self.invoke(id, o["name"], X, y, w), dict(op="call", id=id, name=o["name"], b=o["b"]), (X, y, w))
            if o.get("unseen") and not e["exc"]:
                self.ev.append(dict(e, obs=0, unseen=True))
            else:
                self.see(id, e)
        elif o["op"] == "read":
            Q = self.query(id)
            if self.m[id].is_fitted:
                e = self.watch(id, lambda: observe(self.of[id]["kind"], self.m[id], Q), dict(op="read", id=id), Q)
                self.see(id, e)
            else:
                e = self.watch(id, lambda: None, dict(op="read", id=id), Q)
                e["exc"], e["obs"] = unfitted(self.of[id]["kind"], self.m[id], Q), 0
                self.ev.append(e)
        elif o["op"] in ("reject", "fail"):
            c = self.of[id]
            rej = o["op"] == "reject"
            kind = self.next_kind(0 if rej else 1, reject_kinds(c) if rej else fail_kinds(c))
            X, y, w = self.batches[4 if rej else 1]
            X, y, w = broken(kind, X[:, :self.cur[id] if rej else J], y, w, c["law"])
            e = self.watch(id, lambda: self.invoke(id, o["name"], X, y, w), dict(op=o["op"], id=id, name=o["name"], kind=kind, support=kind.startswith("support")), (X, y, w))
            self.see(id, e)
        elif o["op"] == "copy":
            src, how = o["from"], o["how"]
            self.of[id] = self.of[src]
            if src in self.cur:
                self.cur[id] = self.cur[src]
            if src in self.orig:
                self.orig[id] = self.orig[src]

            def go():
                from sklearn.base import clone
                m = self.m[src]
                self.m[id] = pickle.loads(pickle.dumps(m)) if how == "pickle" else copy.deepcopy(m) if how == "deepcopy" else clone(m)
            e = self.watch(src, go, dict(op="copy", id=id, how=how))
            e["from"] = src
            if id in self.m:
                self.see(id, e)
            else:
                self.ev.append(dict(e, obs=0, unfitted=""))

    def canonical(self, hist):
        """a fresh object given exactly this history"""
        self.begin([1] if self.which == 1 else [2], apart=True)
        for k, b in enumerate(hist):  # nothing is read in between
            self.step(dict(op="call", id=self.which, name="fit" if k == 0 else "update", b=b, unseen=k + 1 < len(hist), fresh=k == 0))

    def canonicals(self, which, hist, done):
        c = self.cfg if which == 1 else self.cfg2
        for k in range(1, len(hist) + 1):
            if (c["name"], tuple(hist[:k])) not in done:
                done.add((c["name"], tuple(hist[:k])))
                self.which = which
                self.canonical(hist[:k])

    def run(self, paths, ids=(1,), share=False):
        done = set()
        for p in paths:
            for i, h in enumerate(p["hist"]):
                self.canonicals(1 if i == 0 else 2, h, done)
        for p in paths:
            self.begin(ids, share)
            for o in p["path"]:
                self.step(o)
            for i in list(self.m):
                if self.m[i].is_fitted:
                    self.step(dict(op="read", id=i))
                    if p.get("more", True):
                        for b in MORE:
                            self.step(dict(op="call", id=i, name="update", b=b))
        # what the objects hold inside shows in the next update: fresh objects to compare with
        for p in paths:
            for i, h in enumerate(p["hist"]):
                if h:
                    self.canonicals(1 if i == 0 else 2, tuple(h) + MORE, done)
        return self.ev


def features(p):
    """what a path exercises: for every object, triples of consecutive operations (a copy continues its source)"""
    seqs, out = {}, set()
    for o in p["path"]:
        name = o["op"] + ":" + str(o.get("name") or o.get("how") or "") + ":" + str(o.get("b", ""))
        if o["op"] == "copy":
            seqs[o["id"]] = list(seqs.get(o["from"], [])) + [name]
            seqs.setdefault(o["from"], []).append("copied:" + o["how"])
        else:
            seqs.setdefault(o["id"], []).append(name)
    for i, q in seqs.items():
        q = ["new"] + q + ["end"]
        for k in (2, 3, 4):
            out |= {(i, *q[j:j + k]) for j in range(len(q) - k + 1)}
    return out


def pick(r, paths, k):
    """k paths, in random order but preferring those that add the most (of a few candidates)"""
    left = [int(i) for i in r.permutation(len(paths))]
    feats, seen, out = {}, set(), []
    while left and len(out) < k:
        best, gain = 0, -1
        for j in range(min(len(left), 25)):
            f = feats.setdefault(left[j], features(paths[left[j]]))
            g = len(f - seen)
            if g > gain:
                best, gain = j, g
        i = left.pop(best)
        seen |= feats[i]
        out.append(paths[i])
    return out


def tasks(ck, cfgs, paths, per, total, names=None):
    """chunks of call sequences for every configuration"""
    r = ck.rng("chunks")
    out = []
    for name, c in cfgs.items():
        if names and name not in names:
            continue
        k = total if c["kind"] != "dr" else max(per, total // 3)
        use = pick(r, paths, k)
        for i in range(0, len(use), per):
            out.append(dict(cfg=name, paths=use[i:i + per], key=f"{name}:{i // per}"))
    return out


def run(ck, ops, depth, nobj, per, total, share=False, pairs=None, names=None):
    opset = "{" + ",".join('"%s"' % o for o in ops) + "}"
    paths = ck.model("EstimatorMC", dict(Depth=depth, NObj=nobj, Ops=opset))
    cfgs = configs()
    ts = tasks(ck, cfgs, paths, per, total, names)
    for a, b in pairs or []:
        r = ck.rng("pairs", a, b)
        use = pick(r, paths, total // 3)
        for i in range(0, len(use), per):
            ts.append(dict(cfg=a, cfg2=b, paths=use[i:i + per], key=f"{a}+{b}:{i // per}"))

    def execute(t):
        rec = Recorder(ck, t["key"], cfgs[t["cfg"]], cfgs[t["cfg2"]] if "cfg2" in t else None)
        ev = rec.run(t["paths"], ids=tuple(range(1, nobj + 1)) if share else (1,), share=share)
        return dict(key=t["key"], obs=rec.obs, ev=ev)

    with ck.warmup():
        for name in ("lm_bounded", "gam_bounded", "gam_beinf"):
            c = cfgs[name]
            Recorder(ck, "warm", c).run([dict(path=[dict(op="call", id=1, name="fit", b=1), dict(op="call", id=1, name="update", b=4)], hist=[[1, 4]])])
    ck.validate("EstimatorTrace", ck.pool(execute, ts))
