'''Predictions of all small expressions against the closed-form posterior under independent covariances.'''
from copy import deepcopy
from scipy.stats import norm
import GPy
from mc.bridge import *
from mc import ref, fitting
from GPy_ABCD.Kernels import baseKernels as bk
from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params

LEVEL = 'model_checking'
RULE = 'all normal forms within the bounds, each fitted (optimiser replaced) to generic parameters on several data sets; on each, predictions at every set of points with every combination of full or marginal covariance, with or without noise, and every pair of quantiles; also with another kernel or likelihood given; compared with the closed form evaluated by independent code; a state is a fitted model with its prediction points, a transition one prediction'
def bounds(tier): return dict(quick = 'normal forms with <= 3 leaves (one of 4 data sets each, all 4 up to 2 leaves); 6 sets of prediction points (training ones, reversed, one, far, repeated), 4 options, 4 pairs of quantiles', thorough = 'as quick, all data sets for each, and 4 leaves over LIN, and over PER, WN')[tier] + f'; {thin_bounds(tier)} (of at most 9 leaves)'
ASSUMPTIONS = ['the noise of WN is independent between training and prediction points even where these coincide (as in GPy)', 'fixed 1e-8 jitter of GPy\'s exact inference']
DATA = [(ref.X7, np.sin(ref.X7) + .1 * ref.X7), (np.array([.4, -2., 1.1, 1.1, 3., -.7])[:, None], np.array([3., -1., 2.5, 2., -4., .3])[:, None]), (np.array([[.7]]), np.array([[1.9]])), (ref.Y5[::-1].copy(), 50 + 3 * ref.Y5[::-1])]
QS = [(2.5, 97.5), (25, 75), (.1, 60.), (50, 99.9)]

def cases(tier):
    for i, t in enumerate(normal_terms(3)):
        for d in range(4) if size(t) < 3 or tier == 'thorough' else [i % 4]: yield [t, d]
    for i, t in enumerate(thin_terms(*THIN[tier])):
        if 4 <= size(t) <= 9: yield [t, i % 4]
    if tier == 'thorough':
        for bs in (('LIN',), ('PER', 'WN')):
            for i, t in enumerate(normal_terms(4, bs)):
                if size(t) == 4: yield [t, i % 4]

def check(case):
    t, d = T(case[0]), case[1]; X, Y = DATA[d]; k = build(t)
    X0, Y0 = X.copy(), Y.copy()
    m = fitting.fitted(k, X, Y, which = d % 2, noise = (.3, .8, .25, 1.1)[d]); n = states = 0
    s2 = float(m.model.likelihood.variance[0])
    pk = fit_ker_to_kex_with_params(m.model.kern, deepcopy(k))
    A = ref.of_kex(pk, X, X) + (s2 + 1e-8) * np.eye(len(X)); alpha = np.linalg.solve(A, Y)
    def posterior(Z, cov = lambda P, Q: ref.of_kex(pk, P, Q)):
        Zc = Z.copy(); Kx = cov(X, Zc)
        return Kx.T @ alpha, cov(Zc, Zc) - Kx.T @ np.linalg.solve(A, Kx)
    scale = 1 + np.max(np.abs(A)) + np.max(np.abs(Y))
    ok = lambda a, b: np.shape(a) == np.shape(b) and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= 1e-6 * (scale + np.abs(b)))
    sets = [X, X[::-1].copy(), X + 0., ref.Y5, np.array([[.33]]), np.array([9., -6., 9., .7, .4])[:, None]]
    for si, Z in enumerate(sets):
        mean, C = posterior(Z); states += 1; Z0 = Z.copy()
        for j, (full, lik) in enumerate(((False, True), (True, True), (False, False), (True, False))):
            q = QS[(j + si) % 4]; kw = {}
            if full: kw['full_cov'] = True
            if not lik: kw['include_likelihood'] = False
            if q != QS[0]: kw['quantiles'] = q
            p = m.predict(Z, **kw); n += 1
            what = lambda: f'of {show(t)} on data set {d} at {Z.ravel()} with {kw}'
            require(set(p) == {'mean', 'covariance', 'low_quantile', 'high_quantile'}, lambda: f'predictions {what()} consist of {list(p)}')
            require(ok(p['mean'], mean), lambda: f'predicted mean {what()} is {np.ravel(p["mean"])} rather than {mean.ravel()}')
            W = C + (s2 * np.eye(len(Z)) if lik else 0)
            if not full: W = np.diag(W)[:, None]
            require(ok(p['covariance'], W), lambda: f'predicted covariance {what()} is {p["covariance"]} rather than {W}')
            sd = np.sqrt(np.diag(C) + s2)[:, None] # Quantiles are of observations
            for name, x in zip(('low_quantile', 'high_quantile'), q):
                w = mean + norm.ppf(x / 100) * sd
                require(ok(p[name], w), lambda: f'{name} {what()} is {np.ravel(p[name])} rather than {w.ravel()} (mean {mean.ravel()})')
            require(np.all(p['low_quantile'] < p['high_quantile']), lambda: f'quantiles {what()} are not in order')
        require(np.array_equal(Z, Z0), lambda: f'predicting of {show(t)} altered the points given')
    if size(t) < 3:
        other = bk.SE(); other[:] = [.02, .9]; lk = GPy.likelihoods.Gaussian(variance = .65)
        for Z in sets[3:]:
            mean, C = posterior(Z, lambda P, Q: ref.se(P, Q, .02, .9)); p = m.predict(Z, kern = other, full_cov = True); n += 1
            require(ok(p['mean'], mean) and ok(p['covariance'], C + s2 * np.eye(len(Z))) and ok(p['low_quantile'], mean + norm.ppf(.025) * np.sqrt(np.diag(C) + s2)[:, None]), lambda: f'prediction of {show(t)} by another kernel at {Z.ravel()}')
            mean, C = posterior(Z); p = m.predict(Z, likelihood = lk); n += 1; sd = np.sqrt(np.diag(C) + .65)[:, None]
            require(ok(p['mean'], mean) and ok(p['covariance'], sd ** 2) and ok(p['high_quantile'], mean + norm.ppf(.975) * sd), lambda: f'prediction of {show(t)} by another likelihood at {Z.ravel()}')
    require(np.array_equal(X, X0) and np.array_equal(Y, Y0) and np.array_equal(m.X, X0) and np.array_equal(m.Y, Y0), lambda: f'fitting or predicting altered the data of {show(t)}')
    return dict(evaluations = n, transitions = n, states = states, distinct = [show(t)], sample = f'{show(t)} on data set {d}: {n} predictions')
