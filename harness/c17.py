"""C17: copies resume exactly."""
import life


def run(ck):
    life.run(ck, ["fit", "update", "pickle", "deepcopy", "clone"], depth=4 if ck.quick else 5, nobj=2 if ck.quick else 3, per=15, total=45 if ck.quick else 900)
    return ck.finish("model_checking", ["all call sequences of the given length are model checked, a sample of them is run on every configuration (harness/life.py)",
                                        "observations compared up to rounding (relative 1e-7)"])
