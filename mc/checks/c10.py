'''Base, sigmoid and change kernels against their documented formulas, over grids of parameters (incl. both sides of every numerical regime boundary) and input sets.'''
import itertools
import numpy as np
from mc.driver import fail, require
from mc import ref
from GPy_ABCD.Kernels import baseKernels as bk
from GPy_ABCD.Kernels.linearOffsetKernel import LinearWithOffset
from GPy_ABCD.Kernels.linearKernel import Linear
from GPy_ABCD.Kernels.periodicKernel import PureStdPeriodicKernel
from GPy_ABCD.Kernels.sigmoidalKernels import SigmoidalKernel, SigmoidalIndicatorKernel
from GPy_ABCD.Kernels.changeOperators import ChangePointKernel, ChangeWindowKernel
from GPy_ABCD.Kernels.changeWindowShiftedSides import ChangeWindowKernelShiftedSides
from GPy_ABCD.Kernels.changeWindowThreePart import ChangeWindowKernelIndependent

LEVEL = 'model_checking'
RULE = 'the full grid of parameter values x input sets of every kernel, parameters given to constructors and set afterwards (visited in an order in which consecutive points differ in one value, on one live kernel, so that stale values would show), slopes fixed and free; for each: K(X), K(X, X2), K(X, copy of X), Kdiag against the formula; symmetry, positive semi-definiteness, the cross-covariance as a block of the joint one. A state is a kernel with its parameter values, a transition an evaluation'
def bounds(tier): return dict(quick = 'grids as in GRID (3-22 values per parameter), 7 input sets (1 to 9 points: coincident, unsorted, far, on edges, integer) and all pairs of 4 of them', thorough = 'finer grids as in GRID_THOROUGH, all pairs of input sets')[tier]
ASSUMPTIONS = ['tolerance 1e-8 relative (2e-6 for PER, whose documented Bessel approximations are that accurate)']
SQ = 3.75 ** -.5
LENGTHS = [.02, .1, .3, SQ * .97, SQ * (1 - 1e-9), SQ * (1 + 1e-9), SQ * 1.03, .7, 1., 1.5, 2 * np.pi, 20., 300., 3e3, 9999.9, 1e4, 1e4 * (1 + 1e-9), 2e4, 1e7]
GRID = dict(variance = [.03, 1., 7.], offset = [-2.5, 0., .9, 40.], period = [.37, 1., 2 * np.pi, 55.], lengthscale = LENGTHS,
            location = [-1.1, 0., .83, 2.], slope = [.04, .5, 3.], width = [.05, 1.3, 1.55, 12.], shift_variance = [0., .6, 5.])
MORE = dict(variance = [1e-6, .4, 1e5], offset = [-.4, 3.2], period = [.05, 3., 400.], lengthscale = [.008, .05, .2, .4, .45, .55, .6, 3., 60., 1e3, 6e3, 1e5, 1e9], location = [-7., .15, 30.], slope = [.002, .2, 25.], width = [.002, .4, 3., 300.], shift_variance = [80.])
SETS = [ref.X7, ref.Y5, np.array([[.9]]), np.array([2., -1., -1., 2., .5, .83])[:, None], np.array([.83, 2.13, .83 + 1.55, -1.1, .2])[:, None], np.array([-300., 0., 1e3])[:, None], np.arange(-3, 6)[:, None]]

def spec():
    '''name -> (parameters, constructor from their values, formula)'''
    d = dict(LIN = (['variance', 'offset'], lambda **p: LinearWithOffset(1, **p), ref.lin),
             Linear = (['variance'], lambda **p: Linear(1, **p), ref.lin),
             PER = (['variance', 'period', 'lengthscale'], lambda **p: PureStdPeriodicKernel(1, **p), ref.per))
    for kind, cls in (('S', SigmoidalKernel), ('SI', SigmoidalIndicatorKernel)):
        for r in (False, True):
            for fixed in (False, True):
                ps = ['variance', 'location', 'slope'] + (['width'] if kind == 'SI' else [])
                d[kind + 'r' * r + '_fixed' * fixed] = (ps, lambda cls = cls, r = r, fixed = fixed, **p: cls(1, r, fixed_slope = fixed, **p), lambda X, Y, kind = kind + 'r' * r, **p: ref.sigk(kind, X, Y, **p))
    for kind, cls in (('CP', ChangePointKernel), ('CW', ChangeWindowKernel)):
        for fixed in (False, True):
            ps = ['location', 'slope'] + (['width'] if kind == 'CW' else [])
            d[kind + '_fixed' * fixed] = (ps, lambda cls = cls, fixed = fixed, **p: cls(LinearWithOffset(1, .7, .31), PureStdPeriodicKernel(1, 1.9, 1.3, .8), fixed_slope = fixed, **p),
                lambda X, Y, kind = kind, **p: ref.change(kind, ref.lin(X, Y, .7, .31), ref.per(X, Y, 1.9, 1.3, .8), X, Y, p))
    first, second, third = lambda: LinearWithOffset(1, .7, .31), lambda: PureStdPeriodicKernel(1, 1.9, 1.3, .8), lambda: Linear(1, 2.3)
    f1, f2, f3 = lambda X, Y: ref.lin(X, Y, .7, .31), lambda X, Y: ref.per(X, Y, 1.9, 1.3, .8), lambda X, Y: ref.lin(X, Y, 2.3)
    def shifted(fixed, shift_variance, **p):
        k = ChangeWindowKernelShiftedSides(first(), second(), fixed_slope = fixed, **p); k.shift_variance = shift_variance; return k
    for fixed in (False, True):
        d['CWS' + '_fixed' * fixed] = (['location', 'slope', 'width', 'shift_variance'], lambda fixed = fixed, **p: shifted(fixed, **p),
            lambda X, Y, shift_variance, **p: ref.change('CW', f1(X, Y), f2(X, Y), X, Y, p, shift_variance))
        for own in (False, True): # The three-part window, whose third part is a copy of the first unless given
            d['CW3' + 'o' * own + '_fixed' * fixed] = (['location', 'slope', 'width'], lambda own = own, fixed = fixed, **p: ChangeWindowKernelIndependent(first(), second(), third() if own else None, fixed_slope = fixed, **p),
                lambda X, Y, own = own, **p: ref.change('CW', f1(X, Y), f2(X, Y), X, Y, p, (f3 if own else f1)(X, Y) - f1(X, Y)))
    return d
SPEC = spec()

def cases(tier):
    for name, (ps, _, _) in SPEC.items():
        grid = {p: sorted(GRID[p] + (MORE[p] if tier == 'thorough' else [])) for p in ps}
        first = grid[ps[-1]] if name == 'PER' else grid[ps[0]]
        for v in first: yield [name, ps[-1] if name == 'PER' else ps[0], v, grid, tier]
    yield ['accessors', None, None, None, tier]
    for dims in (1, 2, 3): yield ['columns', None, dims, None, tier]

def zigzag(grids):
    '''The product of the grids in an order where consecutive tuples differ in one place'''
    if not grids: return [()]
    rest, out = zigzag(grids[1:]), []
    for i, v in enumerate(grids[0]): out += [(v,) + r for r in (rest if i % 2 == 0 else rest[::-1])]
    return out

def check(case):
    name, fixed_p, fixed_v, grid, tier = case
    if name == 'accessors': return accessors()
    if name == 'columns': return columns(fixed_v)
    ps, make, formula = SPEC[name]; free_slope = '_fixed' not in name
    tol = 2e-6 if name[:2] in ('PE', 'CP', 'CW') else 1e-8
    pairs = list(itertools.product(range(len(SETS)), repeat = 2)) if tier == 'thorough' else list(itertools.product(range(4), repeat = 2)) + [(i, 0) for i in (4, 5, 6)]
    n, states, live = 0, 0, None
    grids = [[fixed_v] if p == fixed_p else grid[p] for p in ps]
    for vals in zigzag(grids):
        p = dict(zip(ps, vals)); states += 1
        settable = [q for q in ps if q != 'slope' or free_slope]
        if live is None or ('slope' in p and not free_slope): live = make(**p)
        else:
            for q in settable:
                if float(getattr(live, q)[0]) != p[q]: setattr(live, q, p[q])
        got = {q: float(getattr(live, q)[0]) if q in settable else float(getattr(live, q)) for q in ps}
        require(all(abs(got[q] - p[q]) <= 1e-9 * (1 + abs(p[q])) for q in ps), lambda: f'{name} set to {p} has {got}')
        kers = [('live', live)] + ([('new', make(**p))] if states % 5 == 1 else [])
        for how, k in kers:
            for i, X in enumerate(SETS):
                K, want = k.K(X), formula(X, X, **p); n += 1
                scale = max(1e-300, np.max(np.abs(want)))
                ok = lambda a, b, s = scale: a.shape == b.shape and np.all(np.isfinite(a)) and np.max(np.abs(a - b)) <= tol * s
                require(ok(K, want), lambda: f'{name} {p} ({how}): K(X) at X = {X.ravel()} is\n{K}\nrather than\n{want}')
                require(np.max(np.abs(K - K.T)) <= 1e-9 * scale, lambda: f'{name} {p}: K(X) is not symmetric at {X.ravel()}')
                d = np.asarray(k.Kdiag(X)).reshape(-1); n += 1
                require(ok(d, np.diag(want)), lambda: f'{name} {p}: Kdiag at {X.ravel()} is {d} rather than {np.diag(want)}')
                e = np.linalg.eigvalsh((K + K.T) / 2)
                require(e[0] >= -2e-6 * scale * len(X), lambda: f'{name} {p}: K is not positive semi-definite at {X.ravel()}: eigenvalues {e}')
                Kc = k.K(X, X.copy()); n += 1
                require(ok(Kc, want), lambda: f'{name} {p}: K(X, copy of X) differs from K(X) at {X.ravel()}')
            for i, j in pairs:
                if i == j: continue
                X, Y = SETS[i], SETS[j]; K, want = k.K(X, Y), formula(X, Y, **p); n += 1
                scale = max(1e-300, np.max(np.abs(want)), np.max(np.abs(formula(X, X, **p))) ** .5 * np.max(np.abs(formula(Y, Y, **p))) ** .5)
                require(K.shape == want.shape and np.all(np.isfinite(K)) and np.max(np.abs(K - want)) <= tol * scale, lambda: f'{name} {p} ({how}): K(X, X2) at {X.ravel()}, {Y.ravel()} is\n{K}\nrather than\n{want}')
            if states % 7 == 0:
                Z = np.vstack([SETS[0], SETS[1]]); J = k.K(Z); B = k.K(SETS[0], SETS[1]); n += 2
                require(np.allclose(J[:7, 7:], B, rtol = 1e-7, atol = 1e-9 * np.max(np.abs(J))), lambda: f'{name} {p}: K(X, X2) is not the block of the joint covariance')
    return dict(evaluations = n, transitions = n, states = states, traces = states, distinct = [f'{name} {fixed_p} {fixed_v}'], sample = f'{name} {fixed_p}={fixed_v}: {states} parameter points, {n} evaluations')

def accessors():
    '''The kernels that expressions are made of are the documented ones, with independent parameters of the stated names'''
    n = 0
    for b in ('WN', 'C', 'LIN', 'SE', 'PER', 'S', 'Sr', 'SI', 'SIr'):
        f = getattr(bk, b)
        for mk in (f,):
            a, c = mk(), mk(); n += 1
            require(a is not c, f'{b}() gives the same kernel twice')
            names = [x.split('.')[-1] for x in a.parameter_names_flat()]
            vals = ref.values_for(names); a[:] = vals; before = np.array(c.param_array)
            p = dict(zip(names, vals))
            require(not np.array_equal(np.array(a.param_array), before), 'vacuous')
            extra = {} if b not in ('S', 'Sr', 'SI', 'SIr') else {'slope': float(np.asarray(a.slope).reshape(-1)[0])}
            for X, Y in ((ref.X7, ref.X7), (ref.X7, ref.Y5)):
                got = a.K(X) if X is Y else a.K(X, Y); want = ref.base(b, X, Y, {**extra, **p}); n += 1
                require(ref.close(got, want, 2e-6), lambda: f'{b} with {p} computes\n{got}\nrather than\n{want}')
            require(np.array_equal(before, np.array(c.param_array)), lambda: f'setting one {b} altered another')
    for kind in ('CP', 'CW'):
        for l, r in itertools.product(('WN', 'C', 'LIN', 'SE', 'PER'), repeat = 2):
            kl, kr = getattr(bk, l)(), getattr(bk, r)()
            k = getattr(bk, kind)(kl, kr); names = list(k.parameter_names_flat()); vals = ref.values_for(names); k[:] = vals
            p = dict(zip(names, vals)); n += 1
            own = {x.split('.')[-1]: v for x, v in p.items() if x.count('.') == 1}
            side = lambda s: {x.split('.')[-1]: v for x, v in zip(k.parts[s].parameter_names_flat(), np.array(k.parts[s].param_array))}
            for X, Y in ((ref.X7, ref.X7), (ref.X7, ref.Y5)):
                got = k.K(X) if X is Y else k.K(X, Y); n += 1
                want = ref.change(kind, ref.base(l, X, Y, side(0)), ref.base(r, X, Y, side(1)), X, Y, own)
                require(ref.close(got, want, 2e-6), lambda: f'{kind}({l}, {r}) with {p} computes\n{got}\nrather than\n{want}')
            for orig, s in ((kl, 0), (kr, 1)): require(not np.array_equal(np.array(orig.param_array), np.array(k.parts[s].param_array)), lambda: f'{kind} shares its sub-kernel with the one it was given')
    return dict(evaluations = n, transitions = n, states = n, distinct = ['accessors'])

def columns(dims):
    '''Inputs of several columns: the linear kernel over all of them (with one or a variance each), the others over the column they are told'''
    n = 0; base = ref.X7, ref.Y5
    A, B = [np.hstack([np.cos(1.7 * j + x * (1 + .3 * j)) * 2 - .4 * j for j in range(dims)]) for x in base]
    for X, Y in itertools.product((A, B), repeat = 2):
        for ard, var in itertools.product((False, True), ([.8, 2.3, .4], [3.1, .2, 1.])):
            v = np.array(var[:dims]) if ard else np.array(var[:1])
            for k in (Linear(dims, v, ard), Linear(dims, None, ard)):
                if k.variance.values.tolist() != v.tolist(): k.variance[:] = v
                want = sum((v[j] if ard else v[0]) * X[:, j:j + 1] @ Y[:, j:j + 1].T for j in range(dims)); n += 3
                require(ref.close(k.K(X, Y), want), lambda: f'Linear({dims}, {v}, ARD = {ard}): K(X, X2) is\n{k.K(X, Y)}\nrather than\n{want}')
                if X is Y:
                    require(ref.close(k.K(X), want), lambda: f'Linear({dims}, {v}, ARD = {ard}): K(X) is\n{k.K(X)}\nrather than\n{want}')
                    require(ref.close(k.Kdiag(X), np.diag(want)), lambda: f'Linear({dims}, {v}, ARD = {ard}): Kdiag is {k.Kdiag(X)} rather than {np.diag(want)}')
        for name, (ps, make, formula) in SPEC.items():
            if name[:2] in ('CP', 'CW') or name == 'Linear': continue
            start = dict(variance = .9, offset = .4, period = 1.7, lengthscale = .8, location = .1, slope = .4, width = 1.2); p = {q: start[q] for q in ps}
            for j in range(dims):
                k = make(active_dims = [j], **p); want = formula(X[:, j:j + 1], Y[:, j:j + 1], **p); n += 2
                require(ref.close(k.K(X, Y), want, 2e-6), lambda: f'{name} of column {j} of {dims}: K(X, X2) is\n{k.K(X, Y)}\nrather than\n{want}')
                if X is Y: require(ref.close(k.K(X), want, 2e-6) and ref.close(np.asarray(k.Kdiag(X)).reshape(-1), np.diag(want), 2e-6), lambda: f'{name} of column {j} of {dims}: K(X) or Kdiag differs from\n{want}')
    return dict(evaluations = n, transitions = n, states = n, distinct = [f'columns {dims}'])
