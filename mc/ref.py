'''Reference covariance functions and evaluation of (parameterised) expressions, from the documented formulas only.'''
import numpy as np
from scipy.special import i0e, i1e

SLOPE = 0.5 # The fixed slope of change kernels (when not fit)
X7 = np.array([-2.3, -1.1, -0.4, 0.15, 0.9, 1.6, 2.7])[:, None]
Y5 = np.array([-1.9, -0.4, 0.33, 1.2, 3.1])[:, None] # Shares one point with X7

def psi(q): # (exp(q) - I0(q)) exp(-q), with no cancellation for small q
    return 1 - i0e(q) if q >= .5 else series(1., q) * np.exp(-q)
def series(c, q): # exp(c q) - I0(q) for small q
    c = np.asarray(c, float); tot, t, u = np.zeros_like(c), np.ones_like(c), 1.
    for n in range(1, 30):
        t = t * (c * q) / n; tot = tot + t
        u = u * (q * q / 4) / (n * n); tot = tot - u
    return tot

def per(X, Y, variance, period, lengthscale):
    c, q = np.cos(2 * np.pi / period * (X - Y.T)), float(lengthscale) ** -2
    if q < .5:
        if q < 1e-9: return variance * c # The limit, to order q
        return variance * series(c, q) / series(1., q)
    return variance * (np.exp((c - 1) * q) - i0e(q)) / (1 - i0e(q))
def per_derivative(q_, X, Y, variance, period, lengthscale):
    '''dK/dperiod or dK/dlengthscale, in closed form (None where that cancels)'''
    ph, q = 2 * np.pi / period * (X - Y.T), float(lengthscale) ** -2
    c = np.cos(ph)
    if q_ == 'period':
        if q < 1e-9: return variance * np.sin(ph) * ph / period
        return variance * q * np.sin(ph) * ph / period * (np.exp(c * q) / series(1., q) if q < .5 else np.exp((c - 1) * q) / (1 - i0e(q)))
    if q_ != 'lengthscale' or q < .5: return None
    E, d0 = np.exp((c - 1) * q), i1e(q) - i0e(q)
    N, D = E - i0e(q), 1 - i0e(q)
    return variance * (((c - 1) * E - d0) * D + N * d0) / D ** 2 * (-2 * q / lengthscale)
def std_per(X, Y, variance, period, lengthscale): return variance * np.exp(-.5 * (np.sin(np.pi * (X - Y.T) / period) / lengthscale) ** 2)
def lin(X, Y, variance, offset = 0.): return variance * (X - offset) * (Y - offset).T
def se(X, Y, variance, lengthscale): return variance * np.exp(-(X - Y.T) ** 2 / (2 * lengthscale ** 2))
def bias(X, Y, variance): return np.full((len(X), len(Y)), float(variance))
def white(X, Y, variance): return variance * (np.eye(len(X)) if X is Y else np.zeros((len(X), len(Y)))) # Independent noise: 0 between different input sets

def sig(a): return (1 + a / (1 + np.abs(a))) / 2
def step(kind, x, location, slope = SLOPE, width = None):
    if kind in ('S', 'Sr'): f = sig((x - location) / slope)
    else: f = (sig((x - location) / slope) + sig((x - location - width) / -slope) - 1) / ((width / (2 * slope)) / (1 + abs(width / (2 * slope))))
    return 1 - f if kind.endswith('r') else f
def sigk(kind, X, Y, variance = 1., **ps): return variance * step(kind, X, **ps) * step(kind, Y, **ps).T

FULL_PER = False
def base(b, X, Y, ps):
    ps = {k: float(np.asarray(v).reshape(-1)[0]) for k, v in ps.items()}
    if b in ('S', 'Sr', 'SI', 'SIr'): return sigk(b, X, Y, **{k: v for k, v in ps.items() if not (k == 'width' and b in ('S', 'Sr'))})
    ps.setdefault('variance', 1.)
    if b == 'PER' and FULL_PER: return std_per(X, Y, **ps)
    return dict(PER = per, LIN = lin, SE = se, C = bias, WN = white)[b](X, Y, **ps)

SHARED = None # With independent sides: what is after a window
def change(kind, first, second, X, Y, ps, after = None):
    '''Covariance of a change between two covariances given as matrices'''
    l, r = ('Sr', 'S') if kind == 'CP' else ('SIr', 'SI')
    left = ps.pop('_left', ps) if '_left' in ps else ps # The first side's own values, if another's are perturbed
    if after is None: return first * sigk(l, X, Y, **left) + second * sigk(r, X, Y, **ps)
    sides = {k: v for k, v in ps.items() if k != 'width'}
    return first * sigk('Sr', X, Y, **sides) + second * sigk('SI', X, Y, **ps) + (first + after) * sigk('S', X, Y, **{**sides, 'location': ps['location'] + ps['width']})

def of_kex(k, X, Y):
    '''Covariance of a parameterised expression (after match_up_fit_parameters), from the parameters its nodes report'''
    from mc.driver import require
    if hasattr(k, 'left'):
        b = [of_kex(c, X, Y) if not isinstance(c, str) else base(c, X, Y, one(k.parameters[(side, c)], k, c)) for side, c in (('left', k.left), ('right', k.right))]
        ps = {p: v if p == '_left' else float(np.asarray(v).reshape(-1)[0]) for p, v in one(k.parameters[k.CP_or_CW], k, k.CP_or_CW).items()}
        return change(k.CP_or_CW, *b, X, Y, ps, SHARED if k.CP_or_CW == 'CW' else None)
    return of_terms(k, [of_kex(c, X, Y) for c in k.composite_terms], X, Y)

def of_terms(k, composites, X, Y):
    from mc.driver import require
    prod = type(k).__name__ == 'ProductKE'
    acc = np.ones((len(X), len(Y))) if prod else np.zeros((len(X), len(Y)))
    for b, n in k.base_terms.items():
        if n <= 0: continue
        require(len(k.parameters[b]) == n, lambda: f'{k!r} reports {len(k.parameters[b])} sets of parameters for its {n} {b}')
        for ps in k.parameters[b]:
            m = base(b, X, Y, ps)
            acc = acc * m if prod else acc + m
    for m in composites: acc = acc * m if prod else acc + m
    if prod and 'ProductKE' in k.parameters: acc = acc * float(np.asarray(one(k.parameters['ProductKE'], k, 'ProductKE')['variance']).reshape(-1)[0])
    return acc
def one(l, k, b):
    from mc.driver import require
    require(len(l) == 1, lambda: f'{k!r} reports {len(l)} sets of parameters for its {b}')
    return l[0]

# -- numbers of parameters

FIXED_SLOPE, LIN_OFFSET, INDEPENDENT_SIDES = True, True, False
def own_params(b): return {'PER': ['variance', 'period', 'lengthscale'], 'WN': ['variance'], 'SE': ['variance', 'lengthscale'], 'C': ['variance'], 'LIN': ['variance'] + (['offset'] if LIN_OFFSET else [])}[b]
def n_params(t):
    if isinstance(t, str): return len(own_params(t))
    if t[0] == '+': return sum(map(n_params, t[1]))
    if t[0] == '*':
        bs = [b for b in t[1] if isinstance(b, str)]
        return sum(len(own_params(b)) - 1 for b in bs) + (1 if bs else 0) + sum(n_params(c) for c in t[1] if not isinstance(c, str))
    return n_params(t[1]) + n_params(t[2]) + {'CP': 1, 'CW': 2}[t[0]] + (0 if FIXED_SLOPE else 1) + (1 if INDEPENDENT_SIDES and t[0] == 'CW' else 0)

PRIMES = [n for n in range(2, 1300) if all(n % d for d in range(2, int(n ** .5) + 1))]
def values_for(names, which = 0):
    '''Distinct, generic parameter values; offsets and locations of both signs'''
    n, out = len(names), []
    for i, name in enumerate(names):
        v = .45 + np.sqrt(PRIMES[(i if which == 0 else n - 1 - i) + which]) / (4 + which)
        if name.endswith(('offset', 'location')): v = (v - .3) * (-1) ** (i + which)
        out.append(SHARED if name.endswith('shift_variance') else v)
    return out
def set_generic(ker, which = 0):
    names = ker.parameter_names_flat()
    vals = values_for(list(names), which)
    if len(vals): ker[:] = vals
    return vals

def close(a, b, tol = 1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))
