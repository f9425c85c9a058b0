'''Synthetic data generators against their definitions.'''
import itertools, math
import numpy as np
from mc.driver import fail, require
from GPy_ABCD.Util import dataAndPlottingUtil as du

LEVEL = 'model_checking'
RULE = 'every combination of component functions (of both signs, integer-, boolean- and float-valued, discontinuous, constant), change locations before, between, on and after the inputs, lining up or not, weights, and forms of the inputs (list, range, tuple, 1-D and column arrays of integers and floats, sorted or not, one point); a state is a combination, a transition one evaluation; noise is switched off or replaced by a recorded one'
def bounds(tier): return '9 x 9 component functions, 8 locations (all ordered pairs of them for windows, equal ones included), 2 flags, 4 weights, 11 inputs, 3 noises' + ('' if tier == 'quick' else ', all weights and noises with all functions')
FS = dict(zero = lambda x: 0, one = lambda x: 1, double = lambda x: 2 * x, square = lambda x: x ** 2, neg = lambda x: -1.5 * x + 3, sin = lambda x: math.sin(x), step = lambda x: 5 if x >= 2 else -1, frac = lambda x: x / 4, bool = lambda x: x > 3)
XS = [list(range(6)), range(6), (0, 1, 2, 3, 4, 5), np.arange(6), np.arange(6.)[:, None], np.array([[3], [0], [5], [2]]), [2.5, -1., 4., 2., 2.], np.array([3.]), np.array([[2]]), np.linspace(0, 5, 11), [0.5, 1, 2]]
LOCS = [-1, 0, 1.5, 2, 3, 4.25, 5, 9]

def cases(tier):
    for f1 in FS:
        for f2 in FS: yield ['cp', f1, f2, tier]; yield ['cw', f1, f2, tier]
        yield ['plain', f1, None, tier]
    yield ['plots', None, None, tier]

def ref_cp(f1, f2, cp, up): return lambda x: f1(x) if x < cp else f2(x) + (f1(cp) - f2(cp) if up else 0)
def ref_cw(f1, f2, a, b, up):
    shift2 = f1(a) - f2(a) if up else 0
    shift3 = f2(b) + shift2 - f1(b) if up else 0
    return lambda x: f1(x) if x < a else f2(x) + shift2 if x <= b else f1(x) + shift3
def column(X): return np.array(X, dtype = float).reshape(-1, 1)

class Noise: # The recorded stand-in for np.random.randn
    def __init__(self): self.given = []
    def __call__(self, *shape): z = np.cos(np.arange(1, 1 + int(np.prod(shape)))).reshape(shape) * 1.7; self.given.append(z); return z

def check(case):
    kind, f1, f2, tier = case
    if kind == 'plots': return plots()
    n = states = 0
    weights = [(1, 0), (-2.5, 0), (3, 1.5), (0, 1)] if tier == 'quick' and kind == 'cw' else list(itertools.product([1, -2.5, 3, 0], [0, 1, 1.5]))
    f1, f2 = FS[f1], FS.get(f2)
    locs = [(c,) for c in LOCS] if kind == 'cp' else [(a, b) for a in LOCS for b in LOCS if a <= b] if kind == 'cw' else [()]
    real = np.random.randn
    for loc in locs:
        for up in ((False, True) if kind != 'plain' else (False,)):
            if kind == 'plain': mk, want, gen = None, f1, lambda X, *a: du.generate_data(f1, X, *a)
            elif kind == 'cp': mk, want, gen = du.cp_f_maker(f1, f2, *loc, up), ref_cp(f1, f2, *loc, up), lambda X, *a: du.generate_changepoint_data(X, f1, f2, *loc, *a, up)
            else: mk, want, gen = du.cw_f_maker(f1, f2, *loc, up), ref_cw(f1, f2, *loc, up), lambda X, *a: du.generate_changewindow_data(X, f1, f2, *loc, *a, up)
            ws = lambda x: np.array([[float(want(v[0]))] for v in column(x)])
            for X in XS:
                C = column(X); W = ws(X); states += 1
                if mk is not None:
                    got = mk(np.array(X)); n += 1
                    require(np.shape(got) == np.shape(X) and np.allclose(np.reshape(got, (-1, 1)), W), lambda: f'{case[:3]} at {loc}, lined up {up}, over {X} is {got} rather than {W.ravel()}')
                for w, nw in weights:
                    noise = Noise(); np.random.randn = noise
                    try: GX, GY = gen(X, w, nw); n += 1
                    finally: np.random.randn = real
                    require(np.shape(GX) == C.shape and np.array_equal(np.asarray(GX, float), C), lambda: f'{case[:3]}: inputs {X} come back as {GX}')
                    Z = noise.given[0] if nw else 0
                    require(np.shape(GY) == C.shape and np.allclose(GY, W * w + nw * Z), lambda: f'data {case[:3]} at {loc}, lined up {up}, weights {w}, {nw}, over {X} is {np.ravel(GY)} rather than {(W * w + nw * Z).ravel()}')
            if mk is not None:
                for v in LOCS + [-3.25, 2.0001]: n += 1; require(np.allclose(float(mk(v)), float(want(v))), lambda: f'{case[:3]} at {loc}, lined up {up}: value at {v} is {mk(v)} rather than {want(v)}')
            if up and not {case[1], case[2]} & {'step', 'bool'}: # Continuity at every change
                for c in loc:
                    n += 1; lo, at, hi = (float(mk(c + d)) for d in (-1e-9, 0, 1e-9))
                    require(abs(lo - at) < 1e-6 and abs(hi - at) < 1e-6, lambda: f'{case[:3]} lined up at {loc} jumps at {c}: {lo}, {at}, {hi}')
    if kind != 'plain': # Functions which only exist where they are followed (lined up: and at the changes)
        for loc in locs:
            for up in (False, True):
                inside = lambda x: loc[0] <= x <= loc[-1] if kind == 'cw' else x >= loc[0]
                def only(f, where):
                    def g(x):
                        if not where(x) and not (up and x in loc): raise ArithmeticError(f'asked at {x}')
                        return f(x)
                    return g
                g1, g2 = only(f1, lambda x: not inside(x)), only(f2, inside)
                mk, want = (du.cp_f_maker(g1, g2, *loc, up), ref_cp(f1, f2, *loc, up)) if kind == 'cp' else (du.cw_f_maker(g1, g2, *loc, up), ref_cw(f1, f2, *loc, up))
                for v in LOCS + [1, 2.5, 7]:
                    n += 1
                    try: got = float(mk(v))
                    except ArithmeticError as e: fail(f'{case[:3]} at {loc}, lined up {up}: for the value at {v} a function is {e}, where it is not followed')
                    require(np.allclose(got, float(want(v))), lambda: f'{case[:3]} at {loc}, lined up {up}, of partial functions: value at {v} is {got}')
    if kind != 'plain': # Given by default: no lining up, weights of 1
        g = (lambda: du.generate_changepoint_data(XS[0], f1, f2, 2)) if kind == 'cp' else (lambda: du.generate_changewindow_data(XS[0], f1, f2, 2, 3))
        w = ref_cp(f1, f2, 2, False) if kind == 'cp' else ref_cw(f1, f2, 2, 3, False)
    else: g, w = lambda: du.generate_data(f1, XS[0]), f1
    noise = Noise(); np.random.randn = noise
    try: GX, GY = g(); n += 1
    finally: np.random.randn = real
    require(np.allclose(GY, np.array([[float(w(x))] for x in XS[0]]) + noise.given[0]), lambda: f'{case[:3]} with default arguments gives {GY.ravel()}')
    return dict(evaluations = n, states = states, distinct = [repr(case[:3])], sample = f'{case[:3]}: {states} combinations, {n} evaluations')

def plots():
    '''The data put in plots is the given one'''
    n = 0
    for X in XS:
        C = column(X)
        Y = [float(v) ** 2 for v in C.ravel()]
        for y in (Y, np.array(Y), np.array(Y)[:, None]):
            d = du.gg_plot(X, y).data; n += 1
            require(np.allclose(d['X'], C.ravel()) and np.allclose(d['Y'], Y), lambda: f'gg_plot of {X}, {y} plots {d}')
        for f in FS.values():
            d = du.gg_f_plot(f, X).data; n += 1
            require(np.allclose(d['X'].astype(float), C.ravel()) and np.allclose(d['Y'].astype(float), [float(f(v)) for v in C.ravel()]), lambda: f'gg_f_plot over {X} plots {d}')
    return dict(evaluations = n, states = len(XS), distinct = ['plots'])
