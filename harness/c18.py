"""C18: point, median and quantile predictions agree with the predicted law."""
import predict


def run(ck):
    predict.run(ck, "C18", 136 if ck.quick else 1200)
    return ck.finish("model_checking", ["equations and orders of quantile levels enumerated by the model; data and covariates sampled",
                                        "laws judged in moderate parameter ranges (Predict!Moderate)"])
