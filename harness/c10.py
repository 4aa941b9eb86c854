"""C10: inputs, settings and other estimators are never touched."""
import life

PAIRS = [("lm_lasso", "gam_lasso"), ("lm_bounded", "lasso"), ("lm_ols", "scaler_mask"), ("gam_dicts", "lm_lasso"), ("gam_bounded", "lm_bounded"),
         ("lm_enet", "lm_enet"), ("gam_t", "gam_t"), ("gam_gamma", "gam_gamma"), ("gam_dicts", "gam_def"), ("lm_ridge", "gam_bounded"), ("lm_olsobj", "gam_dicts")]


def run(ck):
    life.run(ck, ["fit", "update", "partial", "read", "share"], depth=4 if ck.quick else 5, nobj=2, per=15, total=30 if ck.quick else 600, share=True, pairs=PAIRS)
    return ck.finish("model_checking", ["all interleavings of the given length are model checked, a sample of them is run on every configuration and pair of configurations (harness/life.py)",
                                        "observations compared up to rounding (relative 1e-7)"])
