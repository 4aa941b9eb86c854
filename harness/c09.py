"""C09: rejected updates leave a fitted estimator unchanged."""
import life


def run(ck):
    life.run(ck, ["fit", "update", "partial", "reject", "fail"], depth=4 if ck.quick else 5, nobj=1, per=20, total=60 if ck.quick else 1200)
    return ck.finish("model_checking", ["all call sequences of the given length are model checked, a sample of them is run on every configuration (harness/life.py)",
                                        "observations compared up to rounding (relative 1e-7)"])
