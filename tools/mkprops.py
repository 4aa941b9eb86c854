import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
S="src/ondil/"
p("C01","Gram accumulators equal the discounted weighted sums for every batch split",
 "After an initialisation on some rows and any sequence of updates with any batch sizes, the Gram matrix, the cross-product vector and the inverse Gram matrix equal the sums over all rows seen so far of weight times (1 - forget)^(age of the row) times the outer products (respectively the inverse of that sum), for every forget factor in [0,1) and non-negative weights. The result therefore does not depend on how the rows are split into batches. Initialising the inverse from a singular Gram matrix raises ValueError instead of returning a matrix.",
 ["inputs","histories","configurations"],"every data set, weight vector, forget factor and every way to split the rows into an initial block and update batches (including single-row batches), for every estimation method",
 "tests/test_gram.py checks a few random matrices at a handful of forget factors, without weights that vary by row, and one split; a split- or weight-dependent deviation is not sampled.",
 [S+"gram.py",S+"methods/ridge.py",S+"methods/elasticnet.py",S+"methods/recursive_least_squares.py"],
 [("init_gram / init_y_gram / init_inverted_gram",S+"gram.py"),("update_gram / update_y_gram / update_inverted_gram (Sherman-Morrison)",S+"gram.py"),("EstimationMethod init_/update_ gram wrappers",S+"methods")],
 [("x_gram","discounted weighted X'X or its inverse","returned arrays"),("y_gram","discounted weighted X'y","returned arrays")],["return values of the gram functions and of the estimation methods' gram functions"])
p("C02","Online scaler tracks discounted weighted moments for every chunking",
 "After a fit and any sequence of updates the scaler's mean and variance of every selected column equal the discounted weighted mean and (population) variance of all rows seen so far, whatever the batch sizes, sample weights and forget factor, and the observation count equals the sum of all weights. Transforming standardises exactly the selected columns with these moments, leaves all other columns bit-identical and does not modify its input; inverse-transforming undoes it. With scaling switched off both transformations are the identity.",
 ["inputs","histories","configurations"],"every data matrix, weight vector, forget factor, column selection (all, none, boolean mask, index array) and every batch split",
 "tests/test_online_scaler.py compares a few forget factors on one random design with one-row updates; weights, selections and batch splits in combination are not reached.",
 [S+"scaler.py"],[("OnlineScaler.fit",S+"scaler.py"),("OnlineScaler.update",S+"scaler.py"),("OnlineScaler.transform / inverse_transform",S+"scaler.py")],
 [("mean_, var_","discounted moments of the selected columns",S+"scaler.py"),("n_observations_","sum of weights",S+"scaler.py")],["mean_, var_, std_, n_observations_, transform(), inverse_transform()"])
p("C03","Online linear least squares equals the batch solution on all data",
 "With ordinary least squares and no input scaling, the coefficients and predictions of the linear model after an initial fit and any sequence of updates equal the discounted weighted least-squares solution on all rows seen so far, for every batch split, weight vector, forget factor and intercept setting. With input scaling, each batch enters after being standardised by the moments that already include that batch, and predictions use the current moments. Integer weights act like repeated rows when nothing is forgotten.",
 ["inputs","histories","configurations"],"every data stream, batch split, weights, forget factor in [0,1), intercept on/off, scaling on/off/by column",
 "The repository has no test that compares the updated linear model with a batch fit; sklearn's estimator checks only exercise the interface.",
 [S+"estimators/online_linear_model.py",S+"methods/recursive_least_squares.py",S+"gram.py",S+"scaler.py"],
 [("OnlineLinearModel.fit / update / predict",S+"estimators/online_linear_model.py"),("OrdinaryLeastSquares.fit_beta / update_beta",S+"methods/recursive_least_squares.py")],
 [("coef_","current coefficients, intercept first",S+"estimators/online_linear_model.py")],["coef_, predict(), score(), n_observations_"])
p("C04","Coordinate descent is a bounded, monotone, terminating exact minimiser",
 "For every Gram matrix, cross-product vector, start value, penalty, L1/L2 mix, set of unpenalised coefficients, box bounds, tolerance, iteration limit and visiting order, the solver stops after at most one sweep more than the limit, returns coefficients inside the bounds and never returns a larger penalised objective than that of a start value inside the bounds. In cyclic order every sweep sets each visited coefficient to the box-constrained minimiser of the penalised objective given the others (all coefficients in the first sweep, the currently non-zero ones later) and it stops as soon as the largest change is within tolerance. The inputs are not modified, and ridge estimation returns the same solution for its single penalty.",
 ["inputs","configurations"],"every positive (semi-)definite Gram matrix, cross product, start, penalty, mix, bounds, tolerance, iteration limit, selection order",
 "tests/test_coordinate_descent.py compares two unpenalised runs with a least-squares solution; bounds, penalties, active sets, iteration limits and random order are not asserted.",
 [S+"coordinate_descent.py",S+"methods/ridge.py"],[("online_coordinate_descent",S+"coordinate_descent.py"),("soft_threshold",S+"coordinate_descent.py"),("Ridge.fit_beta / update_beta",S+"methods/ridge.py")],None,["returned coefficients and iteration count; Ridge results"])
p("C05","Regularisation paths use the right grid, start values and bounds",
 "Every coefficient path is computed on a geometric grid that falls from the smallest penalty at which a lasso sets all penalised coefficients to zero (so without coefficient bounds the first lasso row has only zeros there) to that penalty times the configured ratio, with one row per grid point. Each row is the coordinate-descent solution for its own penalty and the configured mix started from the configured start value (the previous row, the same row of the previous fit, or their average), stays within the coefficient bounds, and rows whose start already has the early-stop number of non-zero coefficients are copied unchanged. This holds for the initial path and every later update.",
 ["inputs","histories","configurations"],"every Gram/cross-product pair and history of updates, mix, grid length and ratio, start-value modes, bounds, early stop, intercept penalised or not",
 "No test looks at a path: the tests only check that lasso estimators run; grid, start-value and early-stop rules are unasserted.",
 [S+"coordinate_descent.py",S+"methods/elasticnet.py",S+"methods/lasso_path.py",S+"estimators/online_lasso.py"],
 [("online_coordinate_descent_path",S+"coordinate_descent.py"),("ElasticNetPath._get_lambda_max, fit_beta_path, update_beta_path",S+"methods/elasticnet.py"),("OnlineLasso argument forwarding",S+"estimators/online_lasso.py")],
 [("coef_path_","one coefficient row per penalty",S+"methods/elasticnet.py")],["coef_path_ of estimators, results of fit_beta_path / update_beta_path"])
p("C06","Selected coefficients minimise the configured information criterion",
 "The information criteria follow their documented formulas (AIC, AICC, BIC, HQC, and \"max\" as the best likelihood) from a log-likelihood or a residual sum of squares, for scalars and arrays. Whenever a path-based method is used, the reported coefficients are a row of the reported path that minimises the configured criterion, computed with the number of non-zero coefficients, the effective training length and the weighted, discounted fit accumulated over the initial fit and all updates. This holds for the linear model, and for every iteration of the distributional fit with both the residual-based and the likelihood-based selection rule.",
 ["inputs","histories","configurations"],"every data stream and batch split, criterion, selection rule, forget factor and weights",
 "No test asserts which path row is selected or the value of a criterion; an argmax/argmin, sign, weight or discount slip passes.",
 [S+"information_criteria.py",S+"estimators/online_linear_model.py",S+"estimators/online_gamlss.py"],
 [("InformationCriterion.from_rss / from_ll",S+"information_criteria.py"),("OnlineLinearModel RSS accumulation",S+"estimators/online_linear_model.py"),("_fit_select_model / _update_select_model",S+"estimators/online_gamlss.py")],
 [("coef_, coef_path_","selected row and full path","estimators")],["coef_, coef_path_, predict_path(), debug records"])
p("C07","Effective training length and online averages are chunking-independent",
 "For every forget factor and number (or total weight) of observations the effective training length is the sum of the discount weights (1-(1-forget)^n)/forget, or n when nothing is forgotten, and it never exceeds the asymptotic length 1/forget. Estimators report the total weight of all rows seen and the effective length derived from it after every fit and update, independent of the batch split. Updating an average online with values one at a time or in one array gives the same result, namely the exponentially discounted mean of all values.",
 ["inputs","histories","configurations"],"every forget factor, weight total, value sequence and split",
 "No test covers these helpers or the reported counts after updates.",
 [S+"utils.py",S+"estimators/online_linear_model.py",S+"estimators/online_gamlss.py"],
 [("calculate_effective_training_length / calculate_asymptotic_training_length",S+"utils.py"),("online_mean_update",S+"utils.py"),("n_observations_/n_training_ maintenance in fit and update",S+"estimators")],None,["helper return values; n_observations_, n_training_, n_samples_"])
p("C08","Estimator life cycle: state is determined by the data history",
 "What a fitted estimator (linear model, lasso, distributional regression, scaler) reports and predicts is a deterministic function of its settings and of the sequence of fit and update calls since the last fit: fitting again forgets everything before, the first incremental call behaves like a fit and later ones like updates, and any number of prediction, scoring or transform calls in between changes nothing. Calling a prediction method before any successful fit raises a not-fitted error, and a failed first fit leaves the estimator unfitted so that a later incremental call fits it.",
 ["histories","configurations"],"every sequence of fit, update, incremental-fit, predict and failing calls, for every estimator and estimation method",
 "sklearn's estimator checks sample a few two-step sequences; longer histories mixing refits, incremental calls and predictions are not compared.",
 [S+"base/estimator.py",S+"estimators/online_linear_model.py",S+"estimators/online_gamlss.py",S+"scaler.py"],
 [("OndilEstimatorMixin.partial_fit / is_fitted",S+"base/estimator.py"),("per-fit preparation of method, scaler and schedules",S+"estimators")],None,["all public fitted attributes and prediction methods"])
p("C09","Rejected updates leave a fitted estimator unchanged",
 "An update (or incremental fit) that is rejected because of its input - wrong number of features, inconsistent lengths, missing or infinite values, wrong weight length, or a response outside the distribution's support - raises an error and leaves the fitted estimator exactly as it was. Everything it reports and predicts, and the result of all later valid calls, is the same as if the rejected call had never been made. A response outside the support is always rejected, in fit and in update.",
 ["histories","fault_sequences","inputs"],"every history of valid calls with rejected calls inserted at any point, every kind of invalid input, every distribution",
 "Tests check that single invalid calls raise; none checks the state afterwards or later updates.",
 [S+"estimators/online_linear_model.py",S+"estimators/online_gamlss.py",S+"scaler.py"],
 [("validation before any state change in update",S+"estimators"),("_validate_inputs support check",S+"estimators/online_gamlss.py")],None,["public attributes, predictions and later updates after the rejected call"])
p("C10","No hidden sharing: inputs, settings and other estimators are never touched",
 "Fitting, updating or predicting never modifies the arrays passed in (covariates, responses, weights) nor the objects given to the constructor (settings dictionaries, method, distribution, bounds). Several estimators, or several distribution parameters of one estimator, that were given the same method, distribution or dictionary objects behave exactly as if each had its own copy, for every interleaving of their calls.",
 ["histories","schedules","configurations"],"every interleaving of calls on several estimators sharing setting objects; every estimation method; arrays of any memory layout",
 "Tests never share method or distribution objects between estimators or compare constructor arguments after fitting (beyond sklearn's check on the default configuration).",
 [S+"methods/factory.py",S+"estimators/online_gamlss.py",S+"estimators/online_linear_model.py",S+"methods/ridge.py",S+"methods/elasticnet.py"],
 [("copy of estimation methods",S+"methods/factory.py"),("processing of per-parameter dictionaries and equations",S+"estimators/online_gamlss.py"),("bounds/penalty filled in on the private copy",S+"methods")],None,["constructor arguments, input arrays and all estimators' outputs"])
p("C11","Every distributional iteration solves the documented weighted regression",
 "In every inner iteration of the distributional fit and update the working weights are minus the second derivative times the squared inverse-link derivative, limited to [1e-10, 1e10], the working response is the linear predictor plus the scaled score, and the coefficients are the estimation method's solution of the regression of the working response on the configured design with these weights times sample weights and discounting. In an update the previous sufficient statistics, discounted by the number of new rows, are merged with the new rows exactly once however many iterations are run, so the committed statistics and coefficients reflect each observation once. Weights, working responses and coefficients stay finite for every response inside the support as long as the linear predictors stay moderate.",
 ["inputs","histories","configurations"],"every distribution, estimation method, data stream, weights, forget factors and iteration count",
 "Tests compare final coefficients of a few initial fits with stored R results at coarse tolerance; updates, weights and iteration internals are not asserted.",
 [S+"estimators/online_gamlss.py"],[("_inner_fit",S+"estimators/online_gamlss.py"),("_inner_update and commit of the new Gram matrices in update",S+"estimators/online_gamlss.py")],
 [("debug records","weights, working vectors, eta, fitted values, coefficients by (parameter, outer, inner)",S+"estimators/online_gamlss.py")],["debug records, coef_, coef_path_"])
p("C12","Distributional fitting respects its iteration budgets and acceptance rules",
 "Every fit and update terminates: it runs at most the configured number of outer and inner iterations (a single inner iteration in configured pre-fit rounds), treats every distribution parameter exactly once per outer iteration in the configured order, and stops early only when a deviance tolerance is met, steps have been halved too often or, in a fit, the deviance rose. In a fit the working fitted values move forward only through steps that do not raise the deviance, an increase halves the next step, and after the first outer iteration a parameter's steps that end with a higher deviance than they started from are discarded. No setting combination of iteration limits makes it fail.",
 ["inputs","configurations","histories"],"every data set, distribution, iteration limit, tolerance, step size, pre-fit setting and parameter order",
 "Tests run default limits only; tight limits, step halving, rejected steps and parameter orders are not exercised.",
 [S+"estimators/online_gamlss.py"],[("_outer_fit / _outer_update",S+"estimators/online_gamlss.py"),("_inner_fit / _inner_update control flow, step-size schedule",S+"estimators/online_gamlss.py")],None,["debug records (keys, fitted values, deviances), coef_"])
p("C13","Predicted distribution parameters follow the equation and stay valid",
 "For every fitted distributional model and every finite covariate matrix, the predicted parameters are the inverse link of the linear predictor formed from exactly the configured columns (plus intercept if configured), row by row and independent of the other rows, with the returned contributions summing to the linear predictor. Columns not in a parameter's equation have no influence on that parameter's prediction. All predicted parameters are finite and inside the distribution's parameter support for linear predictors of magnitude up to 300.",
 ["inputs","configurations"],"every equation form (all, intercept, integer and boolean arrays, lists), link, distribution, intercept setting and covariate matrix, including extreme covariates",
 "Tests predict on training data of default configurations only.",
 [S+"estimators/online_gamlss.py",S+"links",S+"base/distribution.py"],[("make_model_array / predict_distribution_parameters",S+"estimators/online_gamlss.py"),("link inverses",S+"links")],None,["predict_distribution_parameters with what=link/response and contributions"])
p("C14","Distribution functions are mutually coherent and match the documented law",
 "For every distribution, every parameter vector in its support and every response value, the log-density is the logarithm of the density and equals the documented (GAMLSS) law, the density is zero outside the support, the distribution function is non-decreasing from 0 to 1 and is that law's distribution function, and its logarithm agrees with it. The quantile function inverts the distribution function, including the point masses of the zero- or one-inflated laws. The mean and median are those of the law, and random draws have one row per parameter vector, lie in the support and follow that vector's law.",
 ["inputs","configurations"],"every distribution, parameter vector, response value and probability level",
 "The tests that compare densities with R cannot run without R, and they sample one random parameter vector per distribution.",
 [S+"distributions",S+"base/distribution.py"],[("theta_to_scipy_params re-parameterisations",S+"distributions"),("explicit pdf/cdf/ppf/logpdf of inflated laws",S+"distributions"),("ScipyMixin",S+"base/distribution.py")],None,["pdf, logpdf, cdf, logcdf, ppf, quantile, mean, median, rvs"])
p("C15","Scores are log-likelihood gradients; curvature is its Fisher information",
 "For every distribution, parameter vector and response value in the support, the first derivative with respect to each distribution parameter equals the derivative of the log-density. The second derivative used for the weights is never positive and has the expected value minus the expected squared score; cross derivatives likewise have expectation minus the expected product of scores and do not depend on the order of the parameters. Asking for a parameter that does not exist, or a cross derivative of a parameter with itself, raises ValueError.",
 ["inputs","configurations"],"every distribution, parameter vector, response value, parameter (pair)",
 "The derivative tests need R and cannot run here; even with R they sample one random point per distribution.",
 [S+"distributions"],[("dl1_dp1 / dl2_dp2 / dl2_dpp",S+"distributions")],None,["dl1_dp1, dl2_dp2, dl2_dpp"])
p("C16","Link functions are smooth monotone bijections with correct derivatives",
 "For every link and every parameter value in its range, applying the link and its inverse returns the value, and conversely for linear predictors; both directions are strictly increasing and the inverse never leaves the range the link declares. The implemented first and second derivatives of the link and the derivative of its inverse are the derivatives of these functions, and elementwise application to arrays of any shape equals scalar application. Saturation at extreme arguments is only allowed beyond the documented robust limits.",
 ["inputs","configurations"],"every link (and shift value), parameter value and linear predictor in the floating-point working range",
 "tests/test_link_functions.py checks round trips on one random vector and no derivative.",
 [S+"links"],[("link / inverse / derivatives",S+"links"),("robust_log, robust_exp, robust_softplus(_inverse), zero_safe_division",S+"links/robust_math.py")],None,["link, inverse, link_derivative, link_second_derivative, inverse_derivative"])
p("C17","Copies resume exactly: pickling, deep-copying and cloning",
 "At any point of any history, pickling and unpickling or deep-copying a fitted estimator gives an estimator that reports, predicts and updates exactly like the original from then on, and further calls on either one do not affect the other. Cloning gives an unfitted estimator with equal settings that, when given the same calls, behaves identically.",
 ["histories","crash_points"],"every history and every point in it at which the copy is taken, every estimator and estimation method",
 "Only sklearn's check that a once-fitted default estimator can be pickled runs; copies taken mid-history and then updated are not compared.",
 [S+"estimators/online_gamlss.py",S+"estimators/online_linear_model.py",S+"methods",S+"scaler.py"],[("all state kept in instance attributes",S+"estimators"),("per-estimator method copy",S+"methods/factory.py")],None,["public attributes, predictions and later updates of original and copy"])
p("C18","Point, median and quantile predictions agree with the predicted law",
 "For every fitted distributional model and covariate matrix, the predicted mean, median and quantiles are those of the distribution with the predicted parameters for the same row. Quantile predictions have one row per covariate row and one column per requested level in the requested order, are non-decreasing in the level, and the predicted distribution function at them returns the level (or jumps across it at a point mass). The median prediction is the 50% quantile.",
 ["inputs","configurations"],"every distribution, fitted coefficients, covariate matrix, scalar level or array of levels in any order",
 "Quantile and median predictions are not tested at all.",
 [S+"estimators/online_gamlss.py",S+"base/distribution.py"],[("predict / predict_median / predict_quantile",S+"estimators/online_gamlss.py")],None,["predict, predict_median, predict_quantile"])
p("C19","Converged fits are stationary points of the weighted likelihood",
 "When an initial distributional fit with ordinary least squares and tight tolerances converges (it stops by itself before its iteration limits, the last iterations neither raised the deviance nor had their proposals turned down), the gradient of the weighted (and, with forgetting equal over parameters, discounted) log-likelihood with respect to every coefficient is zero up to the tolerance. With a normal law this makes the location coefficients the weighted least-squares solution given the fitted scales.",
 ["inputs","configurations"],"every data set from a well-specified model, every distribution, equation, sample weights and forget factor",
 "The stored-coefficient tests cover a handful of data sets for a few distributions with a coarse tolerance and no weights.",
 [S+"estimators/online_gamlss.py",S+"distributions",S+"links"],[("Fisher-scoring iterations in fit",S+"estimators/online_gamlss.py"),("score and weight formulas",S+"distributions")],None,["coef_, predict_distribution_parameters on the training data"])
p("C20","Per-parameter settings reach exactly the parameter they name",
 "Every setting of the distributional model that is documented to accept one value per distribution parameter (equation, method, forget factor, intercept, intercept penalty, criterion, step size) applies to exactly the parameters it names: a mapping with all parameters, a mapping with missing parameters filled with the documented default, and a single value repeated for all parameters give identical fits and updates. Changing the setting of one parameter to an equivalent value, or listing mapping keys in another order, changes nothing.",
 ["configurations","histories"],"every setting, every assignment of values to parameters, every key order and omission, through fits and updates",
 "Per-parameter mappings are not tested (most are rejected by input validation at the base commit).",
 [S+"estimators/online_gamlss.py"],[("_process_parameter / _process_equation",S+"estimators/online_gamlss.py"),("_parameter_constraints",S+"estimators/online_gamlss.py")],None,["coef_, coef_path_, n_training_, predictions"])
p("C21","Start values are valid for every admissible response",
 "For every distribution and every response vector inside its support with some variation, the start values have one row per observation and one column per parameter, are finite, lie strictly inside the parameter support, map to finite linear predictors under the default links and have a finite log-likelihood. Start values computed in closed form depend on the set of observed values only, not on their order, and those of the normal, logistic and Gumbel laws shift and scale with the data.",
 ["inputs"],"every distribution and every response vector in the support with at least two distinct values",
 "tests/test_distributions.py checks only the shape on one random vector.",
 [S+"distributions"],[("initial_values",S+"distributions")],None,["initial_values, logpdf at the start values"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
