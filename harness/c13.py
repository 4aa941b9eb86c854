"""C13: predicted distribution parameters follow the equation and stay valid."""
import predict


def run(ck):
    predict.run(ck, "C13", 136 if ck.quick else 1200)
    return ck.finish("model_checking", ["equations enumerated by the model; data and covariates sampled, linear predictors up to 300",
                                        "values of saturated inverse links judged for range only"])
