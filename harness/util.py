import numpy as np


def batches(sizes):
    pos = 0
    for k in sizes:
        yield pos, pos + k
        pos += k


def fix_weights(w, sizes, first=0):
    """sample weights of a batch must not all be zero (scikit-learn rejects that)"""
    w = np.array(w, dtype=float)
    w[:first] = np.maximum(w[:first], 0.3)
    for a, b in batches(sizes):
        if b > a and not np.any(w[a:b] > 0):
            w[a] = 1.0
    return w


def make_weights(r, kind, n, sizes, first=0):
    w = {"none": np.ones(n), "ones": np.ones(n), "random": r.uniform(0.1, 3, n),
         "zeros": np.where(r.uniform(size=n) < 0.4, 0.0, r.uniform(0.5, 2, n)),
         "wide": np.exp(2 * r.normal(size=n)), "int": r.integers(0, 4, n).astype(float)}[kind]
    return fix_weights(w, sizes, first)


def short(sizes):
    """[2,1,1,1,5] -> '2,1x3,5'"""
    out, i = [], 0
    while i < len(sizes):
        j = i
        while j < len(sizes) and sizes[j] == sizes[i]:
            j += 1
        out.append(str(sizes[i]) if j - i == 1 else f"{sizes[i]}x{j - i}")
        i = j
    return ",".join(out)


def finish_traces(traces, scn):
    for t, s in zip(traces, scn):
        t.setdefault("key", s["key"])
    return traces


def old(w, forget):
    """weights under which observations long ago count as much as recent ones, after discounting"""
    n = len(w)
    return w * np.exp(np.minimum(-np.log1p(-forget) * np.arange(n)[::-1], 80))
