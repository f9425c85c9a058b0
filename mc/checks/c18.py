'''Scores: the criteria's formulas on grids, and the quantities they are given for all small expressions.'''
import itertools, math
from copy import deepcopy
from mc.bridge import *
from mc import ref, fitting
from GPy_ABCD.Util import modelUtil as mu
from GPy_ABCD.Models.model import GPModel
from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params
import GPy_ABCD

LEVEL = 'model_checking'
RULE = 'formulas: the full grid of log-likelihoods, data sizes and parameter counts; quantities: all normal forms within the bounds, each fitted (optimiser replaced) to generic parameters on two data sets, every criterion and a recording one applied in turn, compared with the closed-form marginal likelihood under independent covariances, the number of points and the independent count of free parameters; a state is a fitted model or a grid point, a transition one score'
def bounds(tier): return dict(quick = '17 log-likelihoods x n <= 60 (and some to 1e6) x k <= 40; normal forms with <= 3 leaves, 4 leaves over LIN', thorough = 'as quick with n <= 200, and 4 leaves over LIN, PER, WN')[tier] + f'; {thin_bounds(tier)} (of at most 9 leaves)'
ASSUMPTIONS = ['the marginal likelihood includes the fixed 1e-8 jitter of GPy\'s exact inference', 'AICc where n = k + 1 is undefined and where n < k + 1 only its formula is checked']
LLS = [-1e6, -1234.5, -100., -10.25, -3., -1., -.5, -1e-3, 0., 1e-3, .5, 1., 2.75, 10., 100., 1234.5, 1e6]
XA = ref.X7; YA = np.sin(XA) + .1 * XA
XB = np.array([.4, -2., 1.1, 1.1, 3., -.7, 8., -2.])[:, None]; YB = np.array([3., -1., 2.5, 2., -4., .3, 12., -1.2])[:, None]

def cases(tier):
    for n in list(range(1, 61 if tier == 'quick' else 201)) + [100, 1000, 10 ** 6]: yield ['grid', n]
    for t in normal_terms(3): yield ['model', t]
    for t in normal_terms(4, ('LIN',)):
        if size(t) == 4: yield ['model', t]
    for t in thin_terms(*THIN[tier]):
        if 4 <= size(t) <= 9: yield ['model', t]
    if tier == 'thorough':
        for t in normal_terms(4, ('LIN', 'PER', 'WN')):
            if size(t) == 4: yield ['model', t]

def formula(name, ll, n, k):
    if name == 'BIC': return k * math.log(n) - 2 * ll
    if name == 'AIC': return 2 * k - 2 * ll
    return 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1)
CRITERIA = dict(BIC = mu.BIC, AIC = mu.AIC, AICc = mu.AICc)

def check(case):
    if case[0] == 'grid': return grid(case[1])
    t = T(case[1]); k = build(t); n = 0
    want_k = ref.n_params(t) + 1
    for which, (X, Y) in enumerate(((XA, YA), (XB, YB))):
        m = fitting.fitted(k, X, Y, which = which, noise = .8 if which else .3)
        noise = float(m.model.likelihood.variance[0])
        K = ref.of_kex(fit_ker_to_kex_with_params(m.model.kern, deepcopy(k)), X, X)
        A = K + (noise + 1e-8) * np.eye(len(X))
        sign, logdet = np.linalg.slogdet(A)
        ll = -.5 * float(Y.T @ np.linalg.solve(A, Y)) - .5 * logdet - .5 * len(X) * math.log(2 * math.pi)
        seen = []
        def spy(model, l, n_, k_): seen.append((model, l, n_, k_)); return -17.25
        require(m.cached_utility_function is None and m.cached_utility_function_type is None, lambda: f'a model of {show(t)} has a score before one is computed')
        def other(score):
            def spy(model, l, n_, k_): return score
            return spy
        for name, f in [('spy', spy), ('spy', other(3.5)), ('spy', other(-2.25))] + list(CRITERIA.items())[::1 if which else -1] + [('BIC', mu.BIC)]:
            if name == 'AICc' and len(X) == want_k + 1: continue # Undefined
            s = m.compute_utility(f); n += 1
            if name == 'spy' and f is not spy:
                require(s == f(None, 0, 0, 0), lambda: f'a model of {show(t)} is scored {s} by a criterion giving {f(None, 0, 0, 0)}, after one of the same name giving another score')
            elif name == 'spy':
                require(seen[0][0] is m.model and s == -17.25, lambda: f'a custom criterion for {show(t)} is not given the model or its score not returned')
                require(abs(float(seen[0][1]) - ll) <= 1e-6 * (1 + abs(ll)), lambda: f'{show(t)} is scored by the log-likelihood {seen[0][1]} rather than {ll}')
                require(seen[0][2] == len(X), lambda: f'{show(t)} is scored for {seen[0][2]} data points rather than {len(X)}')
                require(seen[0][3] == want_k, lambda: f'{show(t)} is scored for {seen[0][3]} parameters rather than {want_k} ({ref.n_params(t)} and the noise): {list(m.model.parameter_names_flat())}')
            else:
                w = formula(name, ll, len(X), want_k)
                require(abs(float(s) - w) <= 1e-6 * (1 + abs(w)), lambda: f'{name} of {show(t)} is {s} rather than {w}')
            require(m.cached_utility_function is s or m.cached_utility_function == s, lambda: f'the stored score of {show(t)} is {m.cached_utility_function}, not {s}, the last computed')
            require(m.cached_utility_function_type == (name if name != 'spy' else 'spy'), lambda: f'the score of {show(t)} by {name} is stored as {m.cached_utility_function_type}')
        # Leave-one-out: against actually leaving each point out
        loo = []
        for i in range(len(X)):
            o = [j for j in range(len(X)) if j != i]
            w = np.linalg.solve(A[np.ix_(o, o)], A[o, i])
            mean, var = float(w @ Y[o, 0]), float(A[i, i] - w @ A[o, i])
            loo.append(-.5 * math.log(2 * math.pi * var) - .5 * (float(Y[i, 0]) - mean) ** 2 / var)
        s = float(m.compute_utility(mu.LA_LOO)); w = sum(loo) / len(loo); n += 1
        require(abs(s - w) <= 1e-5 * (1 + abs(w)), lambda: f'LA_LOO of {show(t)} is {s} rather than {w}')
        require(m.cached_utility_function == s and m.cached_utility_function_type == 'LA_LOO', lambda: f'the score of {show(t)} by LA_LOO is stored as {m.cached_utility_function_type} {m.cached_utility_function}')
        # The model as it is when scored, not as it was before
        m.model.likelihood.variance[:] = noise2 = noise * 1.75
        A2 = K + (noise2 + 1e-8) * np.eye(len(X)); ll2 = -.5 * float(Y.T @ np.linalg.solve(A2, Y)) - .5 * np.linalg.slogdet(A2)[1] - .5 * len(X) * math.log(2 * math.pi)
        s = float(m.compute_utility(mu.BIC)); w = formula('BIC', ll2, len(X), want_k); n += 1
        require(abs(s - w) <= 1e-6 * (1 + abs(w)) and m.cached_utility_function == s, lambda: f'after a parameter has changed, BIC of {show(t)} is {s} rather than {w}')
    return dict(evaluations = n, transitions = n, states = 2, distinct = [show(t)], sample = f'{show(t)}: k = {want_k}')

def grid(n):
    calls = states = 0
    require(GPy_ABCD.BIC is mu.BIC and GPy_ABCD.AIC is mu.AIC and GPy_ABCD.AICc is mu.AICc, 'exported criteria')
    for name, f in CRITERIA.items():
        for ll in LLS:
            last = None
            for k in range(1, 41):
                if name == 'AICc' and n == k + 1: continue
                s = float(f(None, ll, n, k)); w = formula(name, ll, n, k); calls += 1; states += 1
                require(abs(s - w) <= 1e-10 * (1 + abs(w)), lambda: f'{name} for log-likelihood {ll}, {n} points, {k} parameters is {s} rather than {w}')
                s2 = float(f(None, np.float64(ll), np.int64(n), np.int64(k))); calls += 1
                require(abs(s2 - w) <= 1e-10 * (1 + abs(w)), lambda: f'{name} for numpy arguments {ll}, {n}, {k} is {s2} rather than {w}')
                if n > 1 and (name != 'AICc' or n > k + 1):
                    require(last is None or s > last, lambda: f'{name} at log-likelihood {ll}, {n} points, does not increase from {k - 1} to {k} parameters')
                    last = s
    return dict(evaluations = calls, transitions = calls, states = states, distinct = [f'n={n}'])
