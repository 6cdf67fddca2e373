"""Single source of truth for the properties: tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

E = "cvx/covariance/ewma.py"
C = "cvx/covariance/combination.py"
G = "cvx/covariance/regularization.py"
X = "experiments/utils/experiment_utils.py"
V = "experiments/utils/iterated_ewma_vec.py"
L = "experiments/utils/low_rank_ewma.py"
T = "experiments/utils/trading_model.py"
B = "experiments/utils/portfolio_backtests.py"
R = "experiments/utils/return_combination.py"
F = "experiments/utils/factor_model.py"
K = "experiments/utils/ccp_regularize.py"

MC, FE = "model_checking", "fault_enumeration"


def P(pid, title, statement, over, text, why, files, mech, technique, note, level=MC, observe=None, state=None):
    return dict(
        id=pid,
        title=title,
        statement=statement,
        over=over,
        text=text,
        why=why,
        files=files,
        mech=mech,
        technique=technique,
        note=note,
        level=level,
        observe=observe or [],
        state=state or [],
    )


PROPS = [
    P(
        "C01",
        "EWMA volatility is the normalised, winsorised exponential RMS of past returns",
        "For every return history, the volatility reported at a time is the square root of the exponentially weighted "
        "mean of the squared returns up to and including that time, with weights that halve every `halflife` rows and "
        "sum to one. With clip_at set, each squared return after the first min_periods+1 observations enters the "
        "average capped at clip_at^2 times the previous running variance. Exactly the rows from the min_periods-th on are "
        "reported, once each, in order, with the asset labels of the input.",
        ["inputs", "histories", "configurations"],
        "all return histories (any length, number of assets, labels, magnitude, dtype), half lives, warm-up lengths and clip levels",
        "No test calls volatility directly; the stored-CSV tests fix one history, one half life and two clip settings.",
        [E],
        [("volatility", "cvx/covariance/ewma.py:volatility"), ("streaming EWMA recursion", "cvx/covariance/ewma.py:_general")],
        "exhaustive bounded enumeration of return histories x configurations on the real code against a closed-form reference model",
        "Every history over a small row alphabet up to a depth, every periodic long history of short period, every "
        "single deviation of a base history, times a configuration grid. Values outside the alphabets are not covered.",
        observe=["volatility(...)"],
        state=[dict(name="_ewma", meaning="running EWMA", where="ewma.py:_general")],
    ),
    P(
        "C02",
        "IEWMA covariance: EWMA correlation of standardised returns times volatilities",
        "For every return history with mean=False, iterated EWMA reports at each time the covariance whose standard deviations "
        "are the EWMA volatilities and whose correlations are those of the exponentially weighted mean of outer products of the "
        "volatility-standardised (and, with clip_at, clipped to +-clip_at) returns, an undefined standardised return of an asset counting as zero and an asset without any nonzero one so far having undefined (NaN) covariances. "
        "The reported mean is zero, the reported volatility is the EWMA volatility, and reports start at the "
        "min_periods_cov-th row that has a standardised return and then come once per row, in order; a history too short for that yields no report.",
        ["inputs", "histories", "configurations"],
        "all return histories, half-life pairs, warm-up lengths, clip levels, labels, magnitudes and numbers of assets",
        "One stored covariance matrix (last row of one CSV, one setting) is compared; start-up rows, clipping, zero-volatility assets and other shapes are never compared.",
        [E],
        [("iterated_ewma", "cvx/covariance/ewma.py:iterated_ewma"), ("scale_cov", "cvx/covariance/ewma.py:iterated_ewma"), ("_ewma_cov", "cvx/covariance/ewma.py:_ewma_cov")],
        "exhaustive bounded enumeration of return histories x configurations on the real code against a closed-form reference model",
        "Every report of every enumerated history is compared with the reference. Entries whose variance is numerically indistinguishable from zero are skipped in the comparison.",
        observe=["iterated_ewma(...)"],
    ),
    P(
        "C03",
        "Mean-adjusted IEWMA centres twice and predicts the matching mean",
        "center(..., mean_adj=True) returns the EWMA mean and the returns minus it (rows before min_periods dropped), and with mean_adj=False "
        "the returns unchanged with a zero mean. With mean=True, iterated EWMA standardises the centred returns, centres the standardised returns "
        "again (half lives mu_halflife1 and mu_halflife2, defaulting to the volatility and covariance half lives), builds the covariance "
        "from the twice-centred data, and predicts the mean as returns-mean plus volatility times standardised-returns-mean.",
        ["inputs", "histories", "configurations"],
        "all return histories, all four half lives, warm-ups and clip levels with mean adjustment",
        "center is tested on one 3x2 frame; the mean=True path is only reached through one weight vector compared to 1e-3, and mu_halflife1/2 are never passed.",
        [E],
        [("center", "cvx/covariance/ewma.py:center"), ("scale_mean", "cvx/covariance/ewma.py:iterated_ewma"), ("mu_halflife defaults", "cvx/covariance/ewma.py:iterated_ewma")],
        "exhaustive bounded enumeration of histories x half-life quadruples on the real code against a closed-form reference model",
        "As C02, for the mean-adjusted path; numerically degenerate variances are skipped.",
        observe=["iterated_ewma(mean=True)", "center(...)"],
    ),
    P(
        "C04",
        "No look-ahead: EWMA/IEWMA reports never depend on later rows",
        "Everything volatility, center and iterated EWMA report for a time depends only on the rows up to and including that time. "
        "Truncating the history after a time, appending rows, or replacing later rows by anything (including missing or huge values) leaves all reports up to that time unchanged, "
        "and no report appears or disappears.",
        ["inputs", "histories", "configurations"],
        "all histories, all cut points and all replacements of the future, for all parameter settings",
        "No test runs a truncated or perturbed history; the stored references look at the last row, where there is no future.",
        [E],
        [("row-by-row recursion", "cvx/covariance/ewma.py:_general"), ("nan_to_num before use", "cvx/covariance/ewma.py:iterated_ewma")],
        "exhaustive exploration of the prefix tree of return histories (every cut point, every future in an alphabet) with a differential oracle on the real code",
        "Differential: report on a prefix vs on each extension; no reference model needed. Bounded history alphabet, length and futures.",
        observe=["iterated_ewma(...)", "volatility(...)", "center(...)"],
    ),
    P(
        "C05",
        "Missing returns count as zero returns",
        "A missing (NaN) return is treated exactly as a zero return by iterated EWMA (nan_to_num, the default) and by the combined predictor from_ewmas: "
        "replacing NaN by 0 changes no reported time, mean, covariance, volatility or weight. "
        "Without mean adjustment, missing values in one asset change no volatility or covariance reported for the other assets at a time, and an asset that has never had a nonzero return has undefined (NaN) covariances "
        "without affecting the rest.",
        ["inputs", "histories", "configurations"],
        "all patterns of missing values (leading, interior, trailing, whole rows, whole columns) in all histories",
        "One random NaN mask on one CSV, last matrix only, iterated EWMA only.",
        [E, C],
        [("nan_to_num", "cvx/covariance/ewma.py:iterated_ewma"), ("adj.fillna", "cvx/covariance/ewma.py:iterated_ewma"), ("zero-variance handling", "cvx/covariance/ewma.py:iterated_ewma")],
        "exhaustive enumeration of all NaN masks of small histories with a differential oracle (NaN run vs zero run, marginal run) on the real code",
        "All 2^(T*n) masks for small T, n plus all single- and double-gap masks of longer histories.",
        observe=["iterated_ewma(...)", "from_ewmas(...).solve(...)"],
    ),
    P(
        "C06",
        "IEWMA is equivariant: units, asset order, asset subset and labels do not matter",
        "Rescaling each asset's returns by a positive or negative factor rescales its volatility by the magnitude and its covariances and means by the factor; "
        "permuting assets permutes the reports; without mean adjustment, dropping other assets leaves the covariances of the remaining assets (with nonzero volatility) unchanged; relabelling rows or columns only relabels reports. "
        "The type of the labels and an integer or floating dtype holding the same returns do not change any number.",
        ["inputs", "configurations"],
        "all histories and all scalings, permutations, asset subsets and relabellings",
        "Each test uses one asset order, one magnitude (daily returns), date labels and float64 data.",
        [E],
        [("scale_cov", "cvx/covariance/ewma.py:iterated_ewma"), ("label propagation", "cvx/covariance/ewma.py:_ewma_mean/_ewma_cov")],
        "exhaustive enumeration of transformation group elements (scalings, permutations, subsets, label/dtype kinds) x histories, differential oracle on the real code",
        "Metamorphic comparison of the real code with itself; all permutations up to 4 assets, all subsets, a scale alphabet from 1e-9 to 1e9.",
        observe=["iterated_ewma(...)", "volatility(...)"],
    ),
    P(
        "C07",
        "Every reported IEWMA covariance is a valid covariance matrix",
        "Every covariance reported by iterated EWMA for assets with at least one nonzero standardised return so far is finite, symmetric and positive semidefinite, "
        "its diagonal is the square of the volatility reported with it, its correlations lie in [-1, 1], and its row and column labels are the asset labels. "
        "Reported volatilities are nonnegative, and zero exactly for assets whose (winsorised) variance is zero.",
        ["inputs", "histories", "configurations"],
        "all histories, including perfectly correlated, opposite, constant, extreme and clipped ones, and all settings",
        "Positive semidefiniteness, symmetry and the diagonal are never asserted; only one matrix is compared with a stored one.",
        [E],
        [("scale_cov", "cvx/covariance/ewma.py:iterated_ewma")],
        "exhaustive bounded enumeration of histories x configurations; invariant evaluated on every reported state of the real code",
        "Invariant check in every reported state; bounded alphabet of histories including degenerate ones.",
        observe=["iterated_ewma(...)"],
    ),
    P(
        "C08",
        "Combination weights are nonnegative, sum to one and maximise the likelihood",
        "The weights reported at a time are nonnegative, sum to one, carry the expert keys in order, and maximise the Gaussian log-likelihood of the "
        "blended predictor (blending the experts' precision Cholesky factors and whitened means) on exactly the last `window` scored returns up to that time, each scored with the predictions made one step before it. "
        "This also holds for windows with too few or all-zero returns to identify the weights, where any maximiser is acceptable. "
        "When the solver stops without reaching an optimum no weights are reported.",
        ["inputs", "histories", "configurations"],
        "all returns, experts, means, window lengths and times",
        "Tests compare four weight vectors with stored ones to 1e-3; other windows, numbers of experts, means, degenerate windows and iteration limits are never checked for optimality.",
        [C],
        [("objective and constraints", "cvx/covariance/combination.py:_CombinationProblem"), ("A and P parameters", "cvx/covariance/combination.py:_CovarianceCombination.solve")],
        "exhaustive enumeration of expert/return histories x windows on the real code and solver; each answer checked by an optimality (duality-gap) certificate of an independent model of the problem",
        "Certificate: for a concave objective over the simplex max_k grad_k - grad.w bounds suboptimality. Tolerance allows for solver accuracy (1e-3), so only deviations beyond it are detected.",
        observe=["Result.weights"],
    ),
    P(
        "C09",
        "Blended covariance and mean are the precision-Cholesky blend of the experts",
        "At every reported time the covariance is inv(L L^T) with L the weighted sum (with the reported weights) of the lower Cholesky factors of the experts' inverse "
        "covariances predicted at that same time, and the mean is inv(L^T) times the weighted sum of the experts' whitened means. "
        "The covariance is symmetric positive definite, labelled by the assets, and the result carries that time.",
        ["inputs", "histories", "configurations"],
        "all experts, returns, means, windows and times",
        "Only one blended covariance is compared (to 1 percent); blended means are never checked.",
        [C],
        [("_solve", "cvx/covariance/combination.py:_CovarianceCombination._solve"), ("_nu", "cvx/covariance/combination.py:_nu")],
        "exhaustive enumeration of expert histories x windows x solver answers (a controlled solver returning every simplex grid point) on the real code against the blending formula",
        "The solver is also replaced by an environment that returns every point of a simplex grid, so that the blend is checked for weights the optimiser would never choose.",
        observe=["Result.covariance", "Result.mean", "Result.time"],
    ),
    P(
        "C10",
        "solve reports once, in order, every time with a full window, and no other",
        "solve(window) yields exactly one entry, in time order, for every time at which all experts have a prediction and at least `window` returns have been scored before or at it; "
        "the first time at which all experts predict only starts the scoring. window=None, or a window longer than the history, means all scored returns. "
        "Experts may start, stop or pause at different times: only times common to all experts count, and if fewer than two exist nothing is reported.",
        ["histories", "configurations", "inputs"],
        "all availability patterns of experts, all window lengths (including None, 1 and too long)",
        "Tests use identically dated experts, window 10 or None, and never check the set of reported times of a full solve.",
        [C],
        [("shift and dropna", "cvx/covariance/combination.py:_CovarianceCombination.__init__"), ("window cap and index arithmetic", "cvx/covariance/combination.py:_CovarianceCombination.solve")],
        "exhaustive enumeration of all availability patterns of two or three experts x all windows on the real code against a set-based reference model",
        "All subsets of a short calendar per expert and all windows; weights of each entry are certified against the common-times model too.",
        observe=["times of the yielded results"],
    ),
    P(
        "C11",
        "Solving for selected times gives exactly those entries of the full solve",
        "solve(window, times) with a run of consecutive available (scored) times yields, in order, exactly the entries of solve(window) whose times are requested, with the same weights, mean and covariance; "
        "requested times without a full window yield nothing, and do not delay or suppress the others. "
        "A request that is not a run of consecutive available times (gaps, wrong order, repetition, unknown times) is rejected before anything is reported.",
        ["histories", "configurations"],
        "all sequences of requested times and all windows",
        "One run of ten late times with window 10 is compared; early runs, window None, and invalid requests are never tried.",
        [C],
        [("times slicing", "cvx/covariance/combination.py:_CovarianceCombination.solve")],
        "exhaustive enumeration of all request sequences (all runs, all subsets, all short permutations) x windows on the real code, differential against the full solve",
        "Differential oracle against the full solve on the same object; every run and every subset of a short calendar.",
        observe=["solve(times=...)"],
    ),
    P(
        "C12",
        "No look-ahead: a combined prediction uses only data up to its time",
        "The entry reported for a time does not change when later returns or later expert predictions are altered or later times are removed or appended; "
        "its weights moreover do not depend on the experts' predictions made at that time, which only enter the reported mean and covariance. "
        "With a finite window, weights do not depend on returns and predictions that left the window.",
        ["histories", "inputs", "configurations"],
        "all histories, cut points, futures and windows",
        "Tests never truncate or alter data; a leak would only make the stored numbers look better.",
        [C],
        [("shift(1)", "cvx/covariance/combination.py:_CovarianceCombination.__init__"), ("rolling window", "cvx/covariance/combination.py:_CovarianceCombination.solve")],
        "exhaustive exploration of cut points x future alphabets x windows with a differential oracle on the real code",
        "Differential oracle with tolerance for solver accuracy; bounded histories.",
        observe=["Result.*"],
    ),
    P(
        "C13",
        "Solver failures are isolated: None for the failed step, all others unaffected",
        "If the optimisation fails at some time steps (solver error, or termination without an optimal solution), solve yields None in place of exactly those entries, keeps going, and every other entry is the same as "
        "in a run without failures. No pattern of failures ends the iteration early, duplicates, reorders or corrupts entries, or affects later solves on the same object.",
        ["fault_sequences", "configurations"],
        "all patterns of failing steps and kinds of failure, for all windows and requested times",
        "No test makes the solver fail; the tests only skip None entries if any.",
        [C],
        [("except SolverError", "cvx/covariance/combination.py:_CovarianceCombination.solve")],
        "fault injection at the solver boundary: every subset of failing steps x failure kinds enumerated on the real code, differential against the fault-free run",
        "Faults are injected at cvxpy.Problem.solve; all 2^m (and kinds^m for small m) patterns.",
        level=FE,
        observe=["sequence yielded by solve"],
    ),
    P(
        "C14",
        "solve calls on one combinator are independent of each other",
        "What a solve call yields depends only on its arguments and the combinator's data: repeating it, running it before or after, or interleaved step by step with other solve calls (other windows, times, abandoned or closed half-way, also from other threads) gives the same entries. "
        "The combinator's visible data (sigmas, means, returns, K, assets) never change, and combinators do not influence each other.",
        ["schedules", "histories"],
        "all interleavings of several solve iterations and all call histories on one or two combinators",
        "Every test makes one or two complete, sequential solves; generators are never interleaved, abandoned or run in threads.",
        [C],
        [("per-call problem object", "cvx/covariance/combination.py:_CovarianceCombination.solve")],
        "stateless exploration of all interleavings of generator steps, and of two threads under a controlled scheduler with switch points at the solver boundary, on the real code; differential oracle",
        "All interleavings of two or three iterations; thread schedules switch at entry and exit of each optimisation (preemption points), bounded number of steps.",
        observe=["sequences yielded by concurrent solve calls"],
    ),
    P(
        "C15",
        "from_ewmas is the combination of the IEWMA experts it names",
        "from_ewmas(returns, pairs, ...) gives the same experts, expert keys ('vola-cov' half lives, in order), results and properties as combining the outputs of iterated EWMA for those pairs with the same warm-up, clip and mean settings through from_sigmas. "
        "Defaults are warm-ups of 20, no clipping and zero means.",
        ["configurations", "inputs"],
        "all half-life pairs, warm-ups, clip and mean settings, including the defaults",
        "Tests compare one weight vector per setting with stored numbers, for one list of pairs, with default warm-ups.",
        [C, E],
        [("from_ewmas", "cvx/covariance/combination.py:from_ewmas")],
        "exhaustive enumeration of the argument grid on the real code, differential against the explicitly composed pipeline",
        "Differential; argument grid with asymmetric values so that swapped or dropped arguments show.",
        observe=["from_ewmas(...)"],
    ),
    P(
        "C16",
        "Combination respects symmetries; equal experts or a single expert change nothing",
        "Permuting or renaming experts permutes or renames the weights and leaves the likelihood-optimal blend unchanged; permuting assets, relabelling, or rescaling returns (and experts accordingly) "
        "transforms means and covariances accordingly as far as the factorisation allows (uniform scale for units). With one expert, or several identical experts, the blended mean and covariance equal that expert's.",
        ["inputs", "configurations"],
        "all experts, permutations, renamings and scalings",
        "Tests use one expert order, one asset order and three distinct experts.",
        [C],
        [("_CombinationProblem", "cvx/covariance/combination.py:_CombinationProblem")],
        "exhaustive enumeration of permutations, renamings and scalings x histories x windows, metamorphic oracle on the real code",
        "Metamorphic comparison by achieved objective and by blend on strongly identified instances; tolerance for solver accuracy. Asset permutations change the Cholesky blend, so they are compared for single experts only.",
        observe=["Result.*"],
    ),
    P(
        "C17",
        "Means: default zero, checked against the covariances, used consistently",
        "Without means, from_sigmas assumes zero means: its results equal those with explicit zero means, and the reported mean is zero. "
        "With means, shifting returns and means by a common vector leaves weights and covariances unchanged and shifts the reported mean by it; means whose times do not match the covariances' times are rejected at construction.",
        ["inputs", "configurations"],
        "all experts, means (arrays or Series), shifts and mismatch patterns",
        "No test passes means to from_sigmas or inspects the reported mean.",
        [C],
        [("zero means", "cvx/covariance/combination.py:_CovarianceCombination.__init__"), ("key assertion", "cvx/covariance/combination.py:_CovarianceCombination.__init__")],
        "exhaustive enumeration of mean alphabets, shifts and all mismatch patterns on the real code, metamorphic oracle",
        "A shift invariance that only holds if means enter the window, the blend and the report consistently.",
        observe=["Result.mean", "construction errors"],
    ),
    P(
        "C18",
        "Inputs are never modified, and reported results are never changed afterwards",
        "No estimation, combination or regularisation call modifies the frames, dictionaries, lists or matrices passed to it, whether it succeeds or fails or is abandoned half-way. "
        "Results already handed out keep their values while iteration continues, and a caller who overwrites a result does not change later results.",
        ["histories", "inputs", "configurations"],
        "all public functions, inputs (including NaN, integer and read-only data) and all consumption patterns of the iterators",
        "Tests never compare inputs before and after, and never keep and recheck, or overwrite, earlier results.",
        [E, C, G, L],
        [("new frames per step", "cvx/covariance/ewma.py:_ewma_cov"), ("fillna copy", "cvx/covariance/ewma.py:iterated_ewma")],
        "exhaustive enumeration of API calls x inputs x consumer behaviours (every subset of steps at which the consumer overwrites what it received) on the real code, differential oracle",
        "Deep snapshots before/after; adversarial consumer enumerated over all subsets of steps.",
        observe=["all public calls"],
    ),
    P(
        "C19",
        "Factor-form regularisation: rank-r part from the top eigenpairs, variances kept",
        "For every positive semidefinite covariance with positive variances and every rank r from 1 to n, the regularised covariance keeps all variances, and its correlation matrix is the sum of the r leading "
        "eigenpairs of the input's correlation matrix plus a nonnegative diagonal; it is symmetric positive semidefinite and labelled as the input. "
        "For r = n the input is returned unchanged.",
        ["inputs", "configurations"],
        "all covariance matrices (any size, scale, conditioning, degenerate ones) and all ranks",
        "The only direct test prints the result; the EM test fixes one matrix.",
        [G],
        [("_regularize_correlation", "cvx/covariance/regularization.py:_regularize_correlation"), ("regularize_covariance", "cvx/covariance/regularization.py:regularize_covariance")],
        "exhaustive enumeration of small integer-factor covariance matrices x ranks x scalings on the real code against an independent eigen-decomposition model and invariants",
        "Matrices built from all small integer factors; when the r-th and (r+1)-th eigenvalues tie, only the invariants are required.",
        observe=["regularize_covariance(...)"],
    ),
    P(
        "C20",
        "Factor form and dense form agree, per time, in order",
        "The low-rank format (F, d) satisfies F F^T + diag(d) = dense regularised covariance with F having r columns and d nonnegative, labelled by the assets. "
        "Results come once per input time in input order, lazily, and the result for a time depends only on that time's matrix and the rank.",
        ["inputs", "configurations", "histories"],
        "all dictionaries of covariances, ranks and consumption orders",
        "Only one time and one rank are used with the factor format, and the two formats are never compared.",
        [G],
        [("low_rank_format", "cvx/covariance/regularization.py:regularize_covariance")],
        "exhaustive enumeration of matrix sequences x ranks x formats on the real code, differential oracle between formats and against single-time runs",
        "All sequences of length up to 3 over a matrix alphabet, all ranks.",
        observe=["regularize_covariance(low_rank_format=...)"],
    ),
    P(
        "C21",
        "EM refinement is five EM steps and never lowers the Gaussian likelihood",
        "Refining a factor model (F, d) against a covariance returns, per time and in order, the result of five exact EM updates of the Gaussian factor model: idiosyncratic variances stay positive, labels and rank are kept, "
        "the Gaussian log-likelihood never decreases, and a model that already equals the covariance is left unchanged. Each time uses its own initial model only; a time without one is refused.",
        ["inputs", "configurations", "histories"],
        "all covariance matrices, initial models and dictionaries of times",
        "One 10x10 example compared with stored digits; monotonicity, fixed points, several times and other ranks are never tried.",
        [G],
        [("_e_step/_m_step", "cvx/covariance/regularization.py:_e_step"), ("em_regularize_covariance", "cvx/covariance/regularization.py:em_regularize_covariance")],
        "exhaustive enumeration of small factor models x covariances on the real code against an independently written EM model and the monotonicity invariant",
        "Independent EM in posterior-moment form; well-conditioned d only.",
        observe=["em_regularize_covariance(...)"],
    ),
    P(
        "C22",
        "Low-rank IEWMA keeps the exact volatilities and a rank-r plus diagonal form",
        "For every history without missing values in which every asset has a nonzero standardised return from the start, and every rank r below the number of assets, low-rank iterated EWMA reports at the same times as iterated EWMA, with the same volatilities and means, a covariance F F^T + diag(d) with r factor columns, nonnegative d, and diagonal equal to the squared volatilities. "
        "Each step adds the new standardised return with the normalised exponential weights, scales the factor part to unit diagonal and keeps its r leading eigenpairs, moving the variances it drops to d. "
        "So while the standardised returns span at most r dimensions it equals the exact iterated EWMA covariance, and reports never depend on later rows.",
        ["inputs", "histories", "configurations"],
        "all histories, ranks, half lives, warm-ups, clip and mean settings",
        "Nothing in experiments/ is tested.",
        [L],
        [("_low_rank_sum", "experiments/utils/low_rank_ewma.py:_low_rank_sum"), ("scale_low_rank", "experiments/utils/low_rank_ewma.py:low_rank_iterated_ewma")],
        "exhaustive bounded enumeration of histories x ranks on the real code; invariants in every state, differential against iterated EWMA",
        "Exactness is only required on histories of dimension at most r; otherwise the invariants decide.",
        observe=["low_rank_iterated_ewma(...)"],
    ),
    P(
        "C23",
        "Log-likelihood functions agree with the Gaussian density and pair dates causally",
        "The batch and the sequential log-likelihood return, for each period, the Gaussian log density of the return under its mean and covariance (in scaled units if scale is given), and agree with each other. "
        "The regularised, low-rank and EM variants score each covariance dated t (plain, rank-r regularised, or factor form) against the return of the next row after t, skip dates without a next return, and label the value with t.",
        ["inputs", "configurations", "histories"],
        "all returns, means, covariances, scales, ranks and date patterns",
        "Nothing in experiments/ is tested.",
        [X, G],
        [("log_likelihood", "experiments/utils/experiment_utils.py:log_likelihood"), ("shift(-1)", "experiments/utils/experiment_utils.py:log_likelihood_regularized")],
        "exhaustive enumeration of small covariance/return/mean alphabets and date patterns on the real code against an independent density model",
        "Independent density by Cholesky solve; bounded alphabets.",
        observe=["log_likelihood*", "em_low_rank_log_likelihood"],
    ),
    P(
        "C24",
        "Rolling-window covariance is the average over exactly the last `memory` rows",
        "The rolling-window estimate dated t is the plain average of r r^T over the last min(memory, rows so far) rows up to and including t. "
        "Estimates are reported from the min_periods-th row on, once per row, with the asset labels, and rows that left the window have no influence.",
        ["inputs", "histories", "configurations"],
        "all histories, memories and warm-ups",
        "Nothing in experiments/ is tested.",
        [X],
        [("rolling_window recursion", "experiments/utils/experiment_utils.py:rolling_window")],
        "exhaustive enumeration of return histories x memory x warm-up on the real code against the definition",
        "All histories over a row alphabet to a depth, plus long periodic histories.",
        observe=["rolling_window(...)"],
    ),
    P(
        "C25",
        "Vectorised IEWMA equals the streaming IEWMA",
        "For histories without missing values and with positive volatilities, the vectorised iterated EWMA of the experiments reports the same dates, covariances and (with mean=True) means as the packaged streaming iterated EWMA with the same half lives, warm-ups and clip level. "
        "With low_rank set, its correlations are those of the factor-form regularisation of that rank, provided every asset has correlations at every report.",
        ["inputs", "histories", "configurations"],
        "all histories, half lives, warm-ups (at least 1), clip levels, mean and rank settings",
        "Nothing in experiments/ is tested.",
        [V, E],
        [("get_next_ewma", "experiments/utils/iterated_ewma_vec.py:get_next_ewma"), ("iterated_ewma", "experiments/utils/iterated_ewma_vec.py:iterated_ewma")],
        "exhaustive bounded enumeration of histories x configurations, differential between the two real implementations and a reference model",
        "Without mean adjustment, all clip levels; with it, warm-ups of at least 2.",
        observe=["experiments iterated_ewma(...)"],
    ),
    P(
        "C26",
        "Realised covariances, volatilities and helper metrics follow their definitions",
        "Realised volatility of a date is the root of the sum of squared intraday returns, and the realised-covariance EWMA is the normalised exponentially weighted mean of the dates' demeaned cross-product matrices, each entry capped after warm-up at clip_at times the magnitude of the previous mean if clip_at is given, reported for every date but the first. "
        "Row-format conversion places the upper triangle row by row and mirrors it, and adding to the diagonal scales exactly the variances by 1+lamda. "
        "Turnover, MSE (a covariance against the next return), ecdf and yearly Sharpe ratios (years with more than 100 days, annualised with 252) follow their formulas.",
        ["inputs", "histories", "configurations"],
        "all intraday histories, matrices and parameters",
        "Nothing in experiments/ is tested.",
        [X, V],
        [("realized_ewma", "experiments/utils/experiment_utils.py:realized_ewma"), ("from_row_to_covariance", "experiments/utils/experiment_utils.py:from_row_to_covariance")],
        "exhaustive bounded enumeration of inputs on the real code against reference definitions",
        "Each function over all inputs of a small alphabet.",
        observe=["realized_ewma, realized_volas, from_row_*, add_to_diagonal, turnover, MSE, ecdf"],
    ),
    P(
        "C27",
        "Backtests trade each prediction on the next return only",
        "A portfolio backtest between two dates pairs the covariance (and mean) predicted at t with the return of the next row after t, for every t whose next row lies in the range and is complete, for every predictor and under its own name; nothing outside the date range enters. "
        "Predictors dated outside the returns, start or end dates without prediction, and gaps in the predictions within the range are rejected. "
        "The results table lists each predictor's own metrics under its name, in the given order, PRESCIENT last.",
        ["inputs", "histories", "configurations"],
        "all returns, predictors, date ranges and names",
        "Nothing in experiments/ is tested.",
        [B, T],
        [("_get_causal", "experiments/utils/portfolio_backtests.py:_get_causal"), ("PortfolioBacktest.__init__", "experiments/utils/portfolio_backtests.py:PortfolioBacktest")],
        "exhaustive enumeration of all date ranges and predictor availability patterns on the real backtest classes against a reference alignment model",
        "Optimising backtests run with an in-process stand-in for the process pool (and CLARABEL in place of the absent ECOS).",
        observe=["Trader.returns, Trader.Sigma_hats, Trader.ws, Trader.rets"],
    ),
    P(
        "C28",
        "Portfolio accounting: returns, growth, drawdown, risk dilution and metrics",
        "Portfolio return is the weights times asset returns plus, when cash is traded, cash weight times the risk-free rate; growth compounds it, drawdown is the largest relative fall from a running peak of the grown values, and mean, risk and Sharpe annualise with 252 (the mean above the risk-free rate if excess is set). "
        "Diluting a portfolio without cash scales each date's weights to the requested predicted annual volatility, with weights and cash still summing to one. "
        "Metrics depend only on the last backtest and the given arguments, not on metrics or dilutions computed earlier.",
        ["inputs", "histories", "configurations"],
        "all weights, returns, risk-free rates, targets and call histories",
        "Nothing in experiments/ is tested.",
        [T],
        [("get_total_returns", "experiments/utils/trading_model.py:Trader.get_total_returns"), ("dilute_with_cash", "experiments/utils/trading_model.py:Trader.dilute_with_cash")],
        "exhaustive enumeration of call sequences (metrics, dilution, backtests with different targets) and return alphabets on the real Trader against a reference accountant",
        "All call sequences up to a depth over a small operation alphabet.",
        observe=["Trader.get_metrics, rets, Vs, ws_diluted"],
    ),
    P(
        "C29",
        "Optimised portfolios satisfy their constraints, are optimal and history-free",
        "Backtested weights sum to one at every date, respect the given leverage and position bounds, and are optimal for the date's own covariance: minimum risk, target-volatility mix of minimum risk and cash, equal risk contributions, maximum diversification, maximum Sharpe ratio, maximum (robust) expected return under the risk limit (times the adjust factor, for scaled returns), or minimum risk plus penalty. "
        "The result of a backtest does not depend on backtests run before it, and constraint lists or dictionaries passed in are not modified.",
        ["histories", "inputs", "configurations"],
        "all covariances, constraint sets and sequences of backtests",
        "Nothing in experiments/ is tested.",
        [T],
        [("Trader.backtest", "experiments/utils/trading_model.py:Trader.backtest")],
        "exhaustive enumeration of backtest sequences x constraint sets x covariance alphabets on the real Trader; feasibility, first-order optimality and history-independence oracles",
        "Process pool replaced by an in-process stand-in, ECOS (not installed) by CLARABEL; sequences up to length 3.",
        observe=["Trader.ws, Trader.obj"],
    ),
    P(
        "C30",
        "Return combination is a causal decayed ridge regression",
        "The combined return forecast at a date is the forecasters' values at that date times ridge weights fitted only on earlier rows (the last `memory` of them, exponentially decayed with half life 500), penalised by alpha times each forecaster's exponentially weighted past mean square; no later data enters. "
        "Lagged and EWMA forecasters dated t use returns strictly before t, and splitting forecasts into positive and negative parts loses nothing. Forecasts of different assets for different dates, or for dates without returns, are refused.",
        ["inputs", "histories", "configurations"],
        "all returns, forecasters, memories, penalties and cut points",
        "Nothing in experiments/ is tested.",
        [R],
        [("ReturnCombinator.fit", "experiments/utils/return_combination.py:ReturnCombinator.fit"), ("ewma_predictors", "experiments/utils/return_combination.py:ewma_predictors")],
        "exhaustive bounded enumeration of histories x memories x penalties on the real code against an independent ridge model; prefix-tree differential for causality",
        "Bounded alphabets; single-forecaster-per-asset lists as the function requires.",
        observe=["ReturnCombinator.fit, daily_predictors, ewma_predictors, feature_engineer"],
    ),
    P(
        "C31",
        "Factor-model covariances and likelihoods assemble as defined and stay causal",
        "The full covariance of a factor model at a date is exposure^T factor-covariance exposure plus the idiosyncratic diagonal, and its log-likelihood scores it against the next row's return with the Gaussian density. "
        "The combined factor covariance reports only dates from the start date on with ten scored factor returns, equals the library's combination of the named IEWMA experts with 5 percent added to the diagonal of the first, and depends only on factor returns up to its date.",
        ["inputs", "histories", "configurations"],
        "all exposures, factor covariances, diagonals, dates, pairs and start dates",
        "Nothing in experiments/ is tested, and this module cannot even be imported without the absent cvx.linalg package.",
        [F, X],
        [("construct_factor_covariance", "experiments/utils/factor_model.py:construct_factor_covariance"), ("from_factor_to_full_covariance", "experiments/utils/factor_model.py:from_factor_to_full_covariance")],
        "exhaustive enumeration of small factor models, start dates and cut points on the real code (with a stand-in pca) against reference assembly and the explicitly composed pipeline",
        "cvx.linalg.pca is replaced by a recording stand-in.",
        observe=["from_factor_to_full_covariance, factor_log_likelihood, construct_factor_covariance, construct_cmiewma_factor_model"],
    ),
    P(
        "C32",
        "Convex-concave refinement takes exact steps that never lower the likelihood",
        "The refinement state built from a covariance S and a factor model (F, d) represents exactly that model: building it back without a step gives the same covariance F F^T + diag(d), and its objective is log det(F F^T + diag d) + tr((F F^T + diag d)^-1 S). "
        "Each step of the convex variant solves the problem linearised at the current model (not an earlier one), so the model keeps its rank and positive idiosyncratic variances, its variances become those of S, the Gaussian likelihood never decreases, and a model equal to S is left unchanged. "
        "Each step of the gradient variant is a hundred unit gradient steps on that problem. Inputs are not modified.",
        ["inputs", "configurations", "histories"],
        "all covariances, initial models, ranks, units and numbers of steps",
        "Nothing in experiments/ is tested, and the solver the code names (MOSEK) is not installed.",
        [K],
        [("_State", "experiments/utils/ccp_regularize.py:_State"), ("_State2", "experiments/utils/ccp_regularize.py:_State2")],
        "exhaustive enumeration of integer factor models x covariances x step sequences on the real code; stationarity conditions, monotonicity and an independent gradient model as oracles",
        "MOSEK is replaced by CLARABEL; solver accuracy 1e-2 relative on the stationarity conditions.",
        observe=["_State.build, objective, iterate", "_State2.build, objective, iterate"],
    ),
    P(
        "C33",
        "Uncertainties of expected returns are causal volatility estimates",
        "The uncertainty of an asset's expected return at a date is n_devs times the (unbiased) exponentially weighted standard deviation, with half life 125 rows, of its returns strictly before that date, "
        "and zero while fewer than two of them exist. There is one row per date, with the asset labels, nonnegative, and nothing from the date itself or later enters.",
        ["inputs", "histories"],
        "all return histories, with missing values, and numbers of deviations",
        "Nothing in experiments/ is tested.",
        [T],
        [("construct_rho", "experiments/utils/trading_model.py:construct_rho")],
        "exhaustive bounded enumeration of return histories on the real code against the closed form; prefix differential for causality",
        "Bounded alphabets and lengths; deviations below 1e-6 of the largest return are not resolved.",
        observe=["construct_rho(...)"],
    ),
    P(
        "C34",
        "Notebook code: smoothing, storage, signals and sampling follow their definitions",
        "The functions defined inside the notebooks of experiments/ do what they say. Smoothing: EWMA smoothing is the exponentially weighted mean of the covariances so far, reported from the second time on; L1 smoothing moves each covariance to the point at Frobenius distance lamda from it towards the previous smoothed one, or keeps the previous one if it is no further than that; the differences are relative Frobenius distances. "
        "Storage: covariances saved as upper triangles and loaded again are the same matrices, dates and labels; Cholesky factors reproduce them. Signals: each row is cut at its own percentiles; signs are given to the ten largest positive and negative predictions; moving autocorrelations use rows so far only. "
        "Sampling: covariances up to the last return are EWMA covariances from min_periods rows on, and each further draw uses the EWMA of the returns and the draws (or given rows) so far. Yearly Sharpe ratios use exactly the days of the year. Inputs are not modified.",
        ["inputs", "histories", "configurations"],
        "all tables of covariances, returns, predictions and parameters",
        "Notebooks are never executed by the tests.",
        ["experiments/extensions/smoothing.ipynb", "experiments/extensions/large_universes.ipynb", "experiments/extensions/generative_mode.ipynb", "experiments/industry_portfolios.ipynb"],
        [("L1_smoothing", "experiments/extensions/smoothing.ipynb"), ("save_cov_to_csv", "experiments/extensions/large_universes.ipynb"), ("_ewma_cov", "experiments/extensions/generative_mode.ipynb"), ("tune_returns", "experiments/industry_portfolios.ipynb")],
        "exhaustive bounded enumeration of histories and parameters on the functions extracted from the notebooks, with a recording sampler and a scratch directory, against closed forms",
        "Only the function definitions and imports of the notebooks are executed, not their data-dependent cells; the quadratic problem of L1 smoothing is solved to 2e-3.",
        observe=["the functions defined in the notebooks' code cells"],
    ),
    P(
        "C35",
        "The demo notebook and the documented examples compute what they show",
        "The interactive demo (book/marimo/demo.py) shows, for the stocks GOOG, AAPL and FB of its price file, the weights of the combination (window of 10 times) of the mean-adjusted IEWMA experts with half-life pairs (10, 10), (21, 21) and (21, 63), clipped at 4.2, of their simple daily returns (a missing price counts as the last one): one row per time with a full window, summing to one and maximising the likelihood of the window. "
        "This holds for every price file, whatever other stocks and column order it has, in every order in which the cells can run and after any cells are run again; the weights of a day never depend on later prices. "
        "The examples of README.md run as written and predict at every time with a full window the blend of their experts.",
        ["inputs", "histories", "configurations", "schedules"],
        "all price files, cell orders, reruns and return files",
        "The demo and the documentation are never executed by the tests.",
        ["book/marimo/demo.py", C, E],
        [("app", "book/marimo/demo.py:app"), ("from_ewmas", "cvx/covariance/combination.py:from_ewmas"), ("from_sigmas", "cvx/covariance/combination.py:from_sigmas")],
        "exhaustive enumeration of all cell schedules (linear extensions of the dataflow graph), rerun sequences and price tables on the demo's real cells, and of return files on the documented examples, against an independent model of experts and combination",
        "marimo is not installed: a stand-in collects the cells and the harness runs them as marimo does; charts are recorded instead of drawn. Up to 2 reruns, price tables of up to 130 days.",
        observe=["the chart and the variables of the demo's cells", "covariance_predictors of the documented examples"],
    ),
]
