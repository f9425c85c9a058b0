'''Entry points under every combination of the documented forms of their inputs, against the plainest form (or against doing it by hand).'''
import contextlib, io, itertools, math
import numpy as np
from mc.bridge import *
from mc import ref, fitting, search as S
import GPy_ABCD as G
from GPy_ABCD.Models import modelSearch as ms
from GPy_ABCD.Models.model import GPModel
from GPy_ABCD.Util import modelUtil as mu
from GPy_ABCD.KernelExpansion import grammar
from GPy.models import GPRegression

LEVEL = 'model_checking'
RULE = 'every combination of forms of X and Y (lists, ranges, one-dimensional and column arrays, of integers and not) in searches, continued searches and single fits; every list of up to 3 start kernels with each given by name, as an expression or as an unsimplified expression; every position of an unknown name or of something which is no kernel; malformed beams; the optimiser is replaced by one which sets the same generic parameters, so results are comparable to the bit. A state is a combination of forms, a transition a fit'
def bounds(tier): return dict(quick = '6 x 6 data forms for searches, 5 x 5 x 3 expressions x 3 scores for single fits, all start lists of <= 2 kernels (5 kernels, 3 forms) and of 3 (3 kernels); 9 malformed beams, 12 unknown kernels in each position of lists of <= 3', thorough = 'start lists of <= 3 of 5 kernels, single fits of 9 expressions')[tier]
ASSUMPTIONS = ['which error refuses malformed input is free']

N = 7
XV, YV = [i / 1. for i in range(-3, 4)], [4., 1., 0., 2., 3., 1., 5.] # Representable as integers too
def forms(v):
    return dict(column = np.array(v, float)[:, None], list = list(v), flat = np.array(v, float), ints = [int(x) for x in v], intflat = np.array([int(x) for x in v]), intcolumn = np.array([int(x) for x in v])[:, None])
FX, FY = forms(XV), forms(YV)

BASES = ['LIN', 'PER', 'WN', ('*', ('LIN', 'PER')), ('CP', 'LIN', 'PER')]
def start(t, form):
    '''A start kernel, by name, as a finished expression, or as a user would write it'''
    if isinstance(t, str): return t if form == 'name' else (SumKE([t]) if form == 'raw' else build(t))
    if form == 'raw': return raw(t)
    return None if form == 'name' else build(t)
def raw(t):
    '''Not simplified, with neither roots nor parents set'''
    if isinstance(t, str): return SumKE([t])
    if t[0] in '+*':
        cls, other, l = (SumKE, ProductKE, t[1]) if t[0] == '+' else (ProductKE, SumKE, t[1])
        rest = [raw(k) for k in l[1:] if not isinstance(k, str)] + ([cls([k for k in l[1:] if isinstance(k, str)])] if any(isinstance(k, str) for k in l[1:]) else [])
        return cls([l[0]], rest) if isinstance(l[0], str) else cls([], [raw(l[0])] + rest)
    wrap = lambda k: SumKE([k]) if isinstance(k, str) else SumKE([], [raw(k)])
    return ChangeKE(t[0], wrap(t[1]), t[2] if isinstance(t[2], str) else wrap(t[2]))
FORMS = ('name', 'kex', 'raw')

def cases(tier):
    for x in FX:
        for y in FY: yield ['search', x, y]
    for x, y in [('column', 'flat'), ('list', 'column'), ('flat', 'list'), ('intflat', 'ints'), ('ints', 'intcolumn'), ('flat', 'flat')]: yield ['continue', x, y]
    for n in (1, 2, 3):
        for ts in itertools.permutations(BASES if n < 3 or tier == 'thorough' else BASES[:2] + BASES[3:4], n):
            for fs in itertools.product(FORMS, repeat = n):
                if all(f != 'name' or isinstance(t, str) for t, f in zip(ts, fs)): yield ['starts', list(zip(ts, fs))]
    for n in range(3):
        for pos in range(n + 1):
            for bad in range(len(UNKNOWN)): yield ['unknown', n, pos, bad]
    for b in range(len(BEAMS)): yield ['beam', b]
    for i, t in enumerate([('+', ('LIN', ('*', ('LIN', 'PER')))), ('CP', 'LIN', 'PER'), 'WN'] + ([('CW', ('*', ('PER', 'WN')), 'LIN'), 'PER', ('+', ('C', 'PER')), ('*', ('LIN', 'LIN')), ('+', ('PER', ('CP', 'LIN', 'C'))), ('*', ('SE', 'PER'))] if tier == 'thorough' else [])):
        for unfinished in (False, True):
            for sc in ('BIC', 'AIC', 'AICc'):
                if sc == 'AICc' and ref.n_params(t) + 1 + 2 > N: continue
                yield ['fit_kex', t, unfinished, sc]
    for i in range(3): yield ['gpy', i]
    for t in BASES: yield ['printout', t]
    for g in ('Default', 'Extended', 'Original_ABCD'): yield ['group', g]

UNKNOWN = ['LINEAR', 'lin', '', 'S', 'SI', 'CP', 'LIN + PER', 'PER ', None, 3, ['LIN'], 'K'] # (Sigmoids are no start kernels)
BEAMS = [None, 1.5, '2', [], [1.], [2, None], (1, 2), [1, '1'], {1}]

class Counting:
    def __init__(self, stop_at = None): self.fits, self.restarts, self.optimizers = 0, set(), set()
    def __enter__(self):
        def f(model, num_restarts = None, **kw): self.fits += 1; self.restarts.add(num_restarts); self.optimizers.add(kw.get('optimizer')); fitting.set_model(model, 0, .3)
        self.ctx = fitting.optimiser(f); self.ctx.__enter__(); return self
    def __exit__(self, *a): self.ctx.__exit__(*a)

def run(X, Y, starts, rounds = 1, beam = 1, verbose = False):
    with contextlib.redirect_stdout(io.StringIO()): return ms.explore_model_space(X, Y, start_kernels = starts, p_rules = [S.plus_per], utility_function = mu.BIC, rounds = rounds, beam = beam, restarts = 2, model_list_fitter = ms.fit_mods_not_parallel, optimiser = 'scg', max_retries = 0, verbose = verbose)
def report(m):
    return (root_term(m.kernel_expression), m.cached_utility_function_type, m.cached_utility_function, tuple(np.array(m.model.param_array)), tuple(np.array(m.model.X).ravel()), np.array(m.model.X).shape, tuple(np.array(m.model.Y).ravel()), np.array(m.model.Y).shape, float(m._ll()), m.interpret())
def print_of(result):
    s, tm, tk, e, ne = result
    return tuple(map(report, s)), tuple(tuple(map(report, r)) for r in tm), tuple(map(root_term, tk)), tuple(map(report, e)), tuple(map(report, ne))
def same(a, b, what):
    if a == b: return
    def diff(a, b, path):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                d = diff(x, y, path + [i])
                if d: return d
            return None
        if isinstance(a, float) and isinstance(b, float) and math.isclose(a, b, rel_tol = 1e-9, abs_tol = 1e-12): return None
        return None if a == b else f'at {path}: {a!r} rather than {b!r}'
    d = diff(a, b, [])
    require(d is None, lambda: f'{what}: {d}')

_plain = {}
def plain(key, f):
    if key not in _plain: _plain[key] = f()
    return _plain[key]
DEFAULT = ['LIN', ('*', ('LIN', 'PER'))]

def check(case): return dict(search = check_search, **{'continue': check_continue}, starts = check_starts, unknown = check_unknown, beam = check_beam, fit_kex = check_fit_kex, gpy = check_gpy, printout = check_printout, group = check_group)[case[0]](*case[1:])

def reference_search(ts):
    '''The same search in the plainest form'''
    with Counting() as c: return print_of(run(FX['column'].copy(), FY['column'].copy(), [build(t) for t in ts]))

def check_search(x, y):
    want = plain('search', lambda: reference_search(DEFAULT))
    X, Y = forms(XV)[x], forms(YV)[y]; Xb, Yb = repr(X), repr(Y)
    n = 0
    for verbose in (False, True):
        with Counting() as c: res = run(X, Y, [start(DEFAULT[0], 'name'), start(DEFAULT[1], 'kex')], verbose = verbose); n += c.fits
        require(c.restarts == {2} and c.optimizers == {'scg'}, lambda: f'the fits have restarts {c.restarts} and optimisers {c.optimizers}')
        same(print_of(res), want, f'search with X as {x} and Y as {y}')
        require(repr(X) == Xb and repr(Y) == Yb, lambda: f'the data given as {x} and {y} were altered')
    return dict(evaluations = n, transitions = n, states = 1, distinct = [f'search {x} {y}'])

def check_continue(x, y):
    want = plain('continue', lambda: two_rounds('column', 'column'))
    same(two_rounds(x, y), want, f'search continued with X as {x} and Y as {y}')
    return dict(evaluations = 8, transitions = 8, states = 1, distinct = [f'continue {x} {y}'])
def two_rounds(x, y):
    X, Y = forms(XV)[x], forms(YV)[y]
    with Counting() as c:
        first = run(X, Y, ['LIN', 'WN'])
        return print_of(ms.model_search_rounds(X, Y, *first, ms.fit_mods_not_parallel, [S.plus_per], mu.BIC, 1, [1], 2, 'scg', 0, False))

def check_starts(l):
    ts = [T(t) for t, _ in l]
    want = plain(tuple(ts), lambda: reference_search(ts))
    given = [start(t, f) for t, (_, f) in zip(ts, l)]; before = list(given)
    with Counting() as c: res = run(FX['column'].copy(), FY['column'].copy(), given)
    same(print_of(res), want, f'search from {l}')
    require(len(given) == len(before) and all(a is b for a, b in zip(given, before)), lambda: f'the list of start kernels was altered into {given}')
    return dict(evaluations = c.fits, transitions = c.fits, states = 1, distinct = [f'starts {l}'])

def check_unknown(n, pos, bad):
    l = [start(t, f) for t, f in zip(BASES[:n], ('name', 'kex', 'raw'))]; l.insert(pos, UNKNOWN[bad])
    with Counting() as c:
        try: res = run(FX['column'].copy(), FY['column'].copy(), l)
        except Exception: res = None
    require(res is None, lambda: f'start kernels {l} are accepted, giving {res[2]}')
    require(c.fits == 0, lambda: f'start kernels {l} are only refused after {c.fits} fits')
    return dict(evaluations = 1, transitions = 1, states = 1, distinct = [f'unknown {n} {pos} {bad}'])

def check_beam(b):
    for rounds in (1, 2, 3):
        with Counting() as c:
            try: res = run(FX['column'].copy(), FY['column'].copy(), ['LIN', 'WN'], rounds, BEAMS[b])
            except Exception: res = None
        require(res is None, lambda: f'beam {BEAMS[b]!r} is accepted')
        require(c.fits <= 2, lambda: f'beam {BEAMS[b]!r} is only refused after expanding models')
    return dict(evaluations = 3, transitions = 3, states = 3, distinct = [f'beam {b}'])

def single(m): return report(m) + (tuple(m.predict(np.array([[.5], [9.]]))['mean'].ravel()), m.restarts, str(m.kernel_expression))
def check_fit_kex(t, unfinished, sc):
    t = T(t); n = 0
    score = getattr(mu, sc)
    def kex(): return raw(t) if unfinished else build(t)
    with Counting() as c:
        m = GPModel(FX['column'].copy(), FY['column'].copy(), build(t)); m.fit(3, 'scg'); m.compute_utility(score)
    want = single(m)
    for x, y in itertools.product(list(FX)[:5], list(FY)[:5]):
        with Counting() as c: m = mu.fit_kex(forms(XV)[x], forms(YV)[y], kex(), 3, score, optimiser = 'scg')
        n += 1
        require(c.fits == 1 and c.restarts == {3} and c.optimizers == {'scg'}, lambda: f'fit_kex makes {c.fits} fits with restarts {c.restarts} and optimisers {c.optimizers}')
        same(single(m), want, f'fit_kex of {show(t)} ({"unsimplified" if unfinished else "simplified"}) with X as {x}, Y as {y}')
    with Counting() as c: m = mu.fit_kex(forms(XV)['list'], forms(YV)['list'], kex(), 3) # By default
    require(m.cached_utility_function_type == 'BIC' and c.optimizers == {'lbfgsb'}, lambda: f'fit_kex scores by {m.cached_utility_function_type} and optimises by {c.optimizers} by default')
    return dict(evaluations = n, transitions = n, states = n, traces = n, distinct = [f'fit_kex {show(t)} {unfinished} {sc}'])

def check_gpy(i):
    t = [('*', ('LIN', 'PER')), ('CP', 'LIN', 'PER'), 'PER'][i]; n = 0
    from matplotlib import pyplot as plt
    with Counting() as c:
        m = GPRegression(FX['column'].copy(), FY['column'].copy(), build(t).to_kernel()); m.optimize_restarts(num_restarts = 2)
        ll, k = float(m.log_likelihood()), ref.n_params(t) + 1
    for x, y in [('column', 'column'), ('list', 'flat'), ('flat', 'ints')]:
        out = io.StringIO()
        with Counting() as c, contextlib.redirect_stdout(out): g = mu.fit_GPy_kern(forms(XV)[x], forms(YV)[y], build(t).to_kernel(), 2, mu.BIC)
        plt.close('all'); n += 1
        require(isinstance(g, GPRegression) and c.fits == 1 and c.restarts == {2}, lambda: f'fit_GPy_kern gives {g!r} after {c.fits} fits with restarts {c.restarts}')
        require(np.array_equal(np.array(g.X), FX['column']) and np.array_equal(np.array(g.Y), FY['column']) and math.isclose(float(g.log_likelihood()), ll, rel_tol = 1e-9), lambda: f'fit_GPy_kern with X as {x} and Y as {y} fits other data')
        scores = [float(l.split(':')[1].strip().strip('[]')) for l in out.getvalue().splitlines() if l.startswith('BIC')]
        require(len(scores) == 1 and math.isclose(scores[0], -2 * ll + k * math.log(N), rel_tol = 1e-6), lambda: f'fit_GPy_kern states the BIC {scores} rather than {-2 * ll + k * math.log(N)}')
    return dict(evaluations = n, transitions = n, states = n, traces = n, distinct = [f'gpy {i}'])

def check_printout(t):
    t = T(t); from matplotlib import pyplot as plt
    m = fitting.fitted(build(t)); u = m.compute_utility(mu.AIC); out = io.StringIO(); before = report(m)
    with contextlib.redirect_stdout(out): mu.model_printout(m)
    plt.close('all'); text = out.getvalue()
    for what, piece in (('expression', str(m.kernel_expression)), ('score', f'AIC: {u}'), ('log-likelihood', str(m._ll())), ('interpretation', m.interpret())):
        require(piece in text, lambda: f'the printout of {show(t)} lacks its {what} {piece!r}:\n{text}')
    require(report(m) == before, lambda: f'printing {show(t)} altered the model')
    return dict(evaluations = 1, transitions = 1, states = 1, distinct = [f'printout {show(t)}'])

def check_group(g):
    bases = [b for b in ('WN', 'C', 'LIN', 'PER')]; lin = ('+', ('LIN',))
    extra = dict(Default = [('CP', 'LIN', 'LIN'), ('CW', 'LIN', 'LIN')], Extended = [mk('+', ['C', ('CP', 'LIN', 'LIN')]), mk('+', ['C', ('CW', 'LIN', 'LIN')])])
    want = ['WN'] if g == 'Original_ABCD' else bases + [('*', ('LIN', 'LIN')), ('*', ('LIN', 'LIN', 'LIN')), ('+', ('C', 'PER'))] + extra[g]
    got = []
    for k in grammar.start_kernels[g]: well_formed(k, f'start kernel of {g}'); got.append(is_normal(k, f'start kernel of {g}'))
    require(sorted(map(repr, got)) == sorted(map(repr, want)), lambda: f'the start kernels {g} are {sorted(map(show, got))} rather than {sorted(map(show, want))}')
    with Counting() as c: res = run(FX['column'].copy(), FY['column'].copy(), grammar.start_kernels[g], rounds = 0)
    require(c.fits == len(want) and sorted(repr(root_term(m.kernel_expression)) for m in res[0]) == sorted(map(repr, want)), lambda: f'a search from {g} of no rounds fits {[m.kernel_expression for m in res[0]]}')
    return dict(evaluations = c.fits, transitions = c.fits, states = 1, distinct = [f'group {g}'])
