'''Gradients against numerical derivatives of the documented formulas.'''
import itertools
from copy import deepcopy
from mc.bridge import *
from mc import ref
from mc.checks.c10 import SPEC, SETS, zigzag, LENGTHS, GRID, MORE
from GPy_ABCD.KernelExpansion.kernelOperations import get_param_dict
from GPy_ABCD.Kernels.linearKernel import Linear

LEVEL = 'model_checking'
RULE = 'kernels: full parameter grids (incl. both sides of regime boundaries), X2 omitted, X2 a copy of X and X2 different, with a basis of upstream gradients (symmetric ones when X2 is omitted), on one live kernel; expressions: all normal forms within the bounds at generic parameters. A state is a kernel with parameters, a transition one update_gradients_full compared, for every parameter, with the numerical derivative of the reference formula'
def bounds(tier): return dict(quick = 'kernels as C10 on 3 input sets; expressions with <= 3 leaves over the 5 base kernels, 4 leaves over LIN under *, CP and CW', thorough = 'finer grids, expressions also with 4 leaves over LIN, PER, SE')[tier] + f'; expressions also {thin_bounds(tier)} (of at most 9 leaves)'
ASSUMPTIONS = ['update_gradients_full is linear in the upstream gradient (so a basis covers all); upstream gradients are symmetric when X2 is omitted, as GP inference produces them',
    'location, slope and width of change kernels may be driven by the second side alone (documented) or by both sides', 'tolerance 1e-5 of the largest entry (plus 1.2e-6 variance / lengthscale^2 for PER lengthscales below 0.52: the accuracy of the documented polynomials; the documented stand-in value 1e-4 / lengthscale is allowed for those above 1e4)']
XS = [np.array([-1.7, .31, .95, 2.2])[:, None], np.array([.5])[:, None], np.array([1.2, -.35, 1.2])[:, None]]

EXTREME = dict(width = [.002, 300.], slope = [.002, 25.], location = [-7., 30.]) # Where the derivatives cancel to a few digits

def cases(tier):
    for name, (ps, _, _) in SPEC.items():
        if name.startswith('CW3'): continue # Experimental, and bounding its own parameters while computing gradients
        grid = {p: sorted(GRID[p] + ([v for v in MORE[p] if v not in EXTREME.get(p, [])] if tier == 'thorough' else [])) for p in ps}
        split = ps[-1] if name == 'PER' else ps[0]
        for v in grid[split]: yield ['kernel', name, split, v, grid]
    terms = list(normal_terms(3)) + [t for t in normal_terms(4, ('LIN',)) if size(t) == 4]
    if tier == 'thorough': terms += normal_terms(4, ('LIN', 'PER', 'SE'))
    terms += [t for t in thin_terms(*THIN[tier]) if size(t) <= 9]
    for t in dict.fromkeys(terms): yield ['expr', t]
    for dims in (1, 2, 3): yield ['columns', dims]

def derivative(f, v, h): # f: value -> matrix
    return (8 * (f(v + h) - f(v - h)) - (f(v + 2 * h) - f(v - 2 * h))) / (12 * h)

def upstream(n, m, symmetric):
    G = np.cos(np.arange(n)[:, None] * 1.3 + np.arange(m)[None, :] * 2.9 + .4) + .2
    if symmetric: G = G + G.T
    out = [G]
    for i in range(n):
        for j in range(m):
            E = np.zeros((n, m)); E[i, j] = 1.
            if symmetric:
                if j < i: continue
                E[j, i] = 1.
            out.append(E)
    return out

def grads(k): return {nm.split('.')[-1] if nm.count('.') == 1 else nm: float(g) for nm, g in zip(k.parameter_names_flat(), np.array(k.gradient))}

def check(case): return check_kernel(*case[1:]) if case[0] == 'kernel' else check_columns(case[1]) if case[0] == 'columns' else check_expr(T(case[1]))

def check_kernel(name, fixed_p, fixed_v, grid):
    ps, make, formula = SPEC[name]; free_slope = '_fixed' not in name; change = name[:2] in ('CP', 'CW')
    n, states, live = 0, 0, None
    for vals in zigzag([[fixed_v] if p == fixed_p else grid[p] for p in ps]):
        p = dict(zip(ps, vals)); states += 1
        settable = [q for q in ps if q != 'slope' or free_slope]
        if live is None or ('slope' in p and not free_slope): live = make(**p)
        else:
            for q in settable:
                if float(getattr(live, q)[0]) != p[q]: setattr(live, q, p[q])
        for X, Y in [(XS[0], None), (XS[0], XS[2]), (XS[2], XS[1])] + ([(XS[0], XS[0].copy()), (XS[2], None), (XS[1], XS[0])] if states % 4 == 1 else []):
            Y_ = X if Y is None else Y
            want = {}
            for q in settable:
                pos = q not in ('offset', 'location', 'shift_variance'); sig = 'slope' in ps
                h = (1e-3 * abs(p[q]) if pos else 1e-3) * (1e-3 if sig else 1.)
                f = lambda v, q = q: formula(X, Y_, **{**p, q: v})
                exact = ref.per_derivative(q, X, Y_, **p) if name == 'PER' else None
                want[q] = [derivative(f, p[q], h) if exact is None else exact]
                if change: # The documented approximation
                    l = .7, .31; kind = name[:2]
                    if name.startswith('CWS'):
                        if q == 'shift_variance': continue
                        g = lambda v, q = q: ref.per(X, Y_, 1.9, 1.3, .8) * ref.sigk('SI', X, Y_, **{a: v if a == q else p[a] for a in ('location', 'slope', 'width')})
                    else: g = lambda v, q = q: ref.change(kind, ref.lin(X, Y_, .7, .31), ref.per(X, Y_, 1.9, 1.3, .8), X, Y_, {**p, q: v, '_left': dict(p)})
                    want[q].append(derivative(g, p[q], h))
            for G in upstream(len(X), len(Y_), Y is None) if states % 6 == 1 or name in ('LIN', 'Linear') else upstream(len(X), len(Y_), Y is None)[:1]:
                live.update_gradients_full(G, X, Y); n += 1
                for q in settable:
                    got = float(np.asarray(getattr(live, q).gradient).reshape(-1)[0])
                    ok, say = False, []
                    for W in want[q]:
                        w = float(np.sum(G * W)); say.append(w)
                        tol = (1e-4 if q == 'lengthscale' and p[q] < .52 else 1e-5) * (np.sum(np.abs(G * W))) + (1.2e-6 * p['variance'] / p[q] ** 2 * np.sum(np.abs(G)) if q == 'lengthscale' and p[q] < .52 else 0) + 1e-6 * np.max(np.abs(G)) * p.get('variance', 1.) + (1.1e-4 / p[q] * abs(np.sum(G)) if q == 'lengthscale' and p[q] > 1e4 else 0) + (1e-5 * np.max(np.abs(W)) * np.max(np.abs(G)))
                        ok = ok or abs(got - w) <= tol
                    require(ok, lambda: f'{name} {p}: the gradient of {q} at X = {X.ravel()}, X2 = {None if Y is None else Y.ravel()} for dL_dK =\n{G}\nis {got} rather than {say}')
    return dict(evaluations = n, transitions = n, states = states, traces = states, distinct = [f'{name} {fixed_v}'], sample = f'{name} {fixed_p}={fixed_v}: {states} parameter points, {n} gradients')

def check_expr(t):
    k = build(t); ker = k.to_kernel(); vals = ref.set_generic(ker); n = 0
    pk = deepcopy(k).match_up_fit_parameters(get_param_dict(ker), '')
    where = {}
    for nd in nodes(pk):
        for key, l in nd.parameters.items():
            for d in l:
                for q, v in d.items(): where.setdefault(round(float(v), 9), []).append((d, q, isinstance(key, str) and key in ('CP', 'CW')))
    names = list(ker.parameter_names_flat())
    for X, Y in ((ref.X7, None), (ref.X7, ref.Y5)):
        Y_ = X if Y is None else Y
        G = upstream(len(X), len(Y_), Y is None)[0]
        ker.update_gradients_full(G, X, Y); got = np.array(ker.gradient); n += 1
        require(got.shape == (len(vals),), lambda: f'{show(t)}: gradient of shape {got.shape}')
        for i, v in enumerate(vals):
            at = where.get(round(float(v), 9), [])
            require(len(at) == 1, lambda: f'{show(t)}: parameter {names[i]} = {v} is reported by {len(at)} terms')
            d, q, change = at[0]; old = d[q]
            def f(x):
                d[q] = x
                try: return ref.of_kex(pk, X, Y_)
                finally: d[q] = old
            wants = [derivative(f, v, 1e-4)]
            if change:
                def g(x):
                    before = {a: float(b) for a, b in d.items()}; d['_left'] = before; d[q] = x
                    try: return ref.of_kex(pk, X, Y_)
                    finally: d[q] = old; del d['_left']
                wants.append(derivative(g, v, 1e-4))
            ws = [float(np.sum(G * W)) for W in wants]
            require(any(abs(got[i] - w) <= 1e-6 * (1 + np.sum(np.abs(G * W))) for w, W in zip(ws, wants)), lambda: f'{show(t)}: the gradient of {names[i]}, X2 {"omitted" if Y is None else "given"}, is {got[i]} rather than {ws}')
    return dict(evaluations = n, transitions = n, states = 1, traces = 1, distinct = [show(t)], sample = f'{show(t)}: {len(vals)} parameters')

def check_columns(dims):
    '''The linear kernel over several columns: derivatives by its variance(s) and by the inputs (which enter linearly)'''
    n = 0
    A, B = [np.hstack([np.cos(1.7 * j + x * (1 + .3 * j)) * 2 - .4 * j for j in range(dims)]) for x in (XS[0], XS[2])]
    for X, Y in ((A, None), (B, None), (A, B), (B, A), (A, A.copy())):
        Y_ = X if Y is None else Y
        for ard, var in itertools.product((False, True), ([.8, 2.3, .4], [3.1, .2, 1.])):
            v = np.array(var[:dims]) if ard else np.array(var[:1]); k = Linear(dims, v, ard); w = v if ard else np.repeat(v, dims)
            for G in upstream(len(X), len(Y_), Y is None):
                k.update_gradients_full(G, X, Y); got = np.array(k.variance.gradient).reshape(-1); n += 2
                each = np.array([np.sum(G * (X[:, j:j + 1] @ Y_[:, j:j + 1].T)) for j in range(dims)]); want = each if ard else np.array([each.sum()])
                require(ref.close(got, want), lambda: f'Linear({dims}, {v}, ARD = {ard}): the gradient of the variance is {got} rather than {want}')
                gx, wx = k.gradients_X(G, X, Y), (2 if Y is None else 1) * (G @ Y_) * w
                require(ref.close(gx, wx), lambda: f'Linear({dims}, {v}, ARD = {ard}): the gradient of the inputs is {gx} rather than {wx}')
            d = np.cos(np.arange(len(X)) * 1.3) + .2; k.update_gradients_diag(d, X); got = np.array(k.variance.gradient).reshape(-1); n += 2
            each = np.array([np.sum(d * X[:, j] ** 2) for j in range(dims)]); want = each if ard else np.array([each.sum()])
            require(ref.close(got, want), lambda: f'Linear({dims}, {v}, ARD = {ard}): the gradient of the variance through the diagonal is {got} rather than {want}')
            gx, wx = k.gradients_X_diag(d, X), 2 * d[:, None] * X * w
            require(ref.close(gx, wx), lambda: f'Linear({dims}, {v}, ARD = {ard}): the gradient of the inputs through the diagonal is {gx} rather than {wx}')
    return dict(evaluations = n, transitions = n, states = n, distinct = [f'columns {dims}'])
