'''Histories of parameter updates and evaluations of live kernels (on observed arrays, which is when kernels cache), each evaluation against a fresh kernel.'''
import itertools, pickle, copy
import numpy as np
from mc.bridge import *
from mc import ref
from mc.checks.c10 import SPEC
from paramz import ObsAr
from GPy_ABCD.Kernels import baseKernels as bk

LEVEL = 'model_checking'
RULE = 'a history is a sequence of operations on a kernel: setting one parameter (2 values each), all of them (2 vectors, as values or in the optimiser\'s coordinates; by steps of 3e-7), randomising, evaluating K (one observed array, two, the same one twice, plain arrays), Kdiag and the gradients, changing an observed array in place, copying (and continuing with the copy while the original lives on), switching between copy and original, pickling. All windows of d consecutive operations occur (de Bruijn sequences, cut into histories which start from new kernels). A state is an operation applied in its context of d - 1 previous ones; a transition an operation; every evaluation is compared with that of a newly built kernel given the same parameter values'
def bounds(tier): return dict(quick = 'd = 2 over all operations and d = 4 (3 for expressions) over 8-10 representative ones, for 24 kernels (all base, sigmoid and change kernels, fixed and free slopes, independent sides, nested expressions)', thorough = 'd = 3 over all operations and d = 5 (4) over representative ones')[tier]
ASSUMPTIONS = ['arrays changed in place are observed ones (paramz ObsAr, what models hold), as GPy\'s caching requires', 'tolerance 1e-10 relative: the same computation on the same values']

EXPRS = [('*', ('LIN', 'PER')), ('+', ('C', ('*', ('PER', 'SE')), 'WN')), ('CP', 'LIN', 'PER'), ('CW', ('+', ('C', 'PER')), ('*', ('LIN', 'SE'))), ('CP', ('CW', 'LIN', 'C'), 'PER'), ('CW', 'SE', ('CP', 'WN', 'LIN')), ('*', ('LIN', ('CP', 'C', 'PER'))), ('+', ('LIN', ('CW', 'PER', 'WN')))]
def makers():
    d = {'SE': bk.SE, 'C': bk.C, 'WN': bk.WN}
    start = dict(variance = .9, offset = .4, period = 1.7, lengthscale = .8, location = .1, slope = .4, width = 1.2, shift_variance = .3)
    for name, (ps, make, _) in SPEC.items():
        if not name.startswith('CW3'): d[name] = lambda ps = ps, make = make: make(**{p: start[p] for p in ps})
    for t in EXPRS: d[show(t)] = lambda t = t: build(t).to_kernel()
    return d
MAKE = makers()

X0 = [np.array([-1.3, -.2, .45, 1.6])[:, None], np.array([-.9, .1, .8, 2.2])[:, None]] # The two contents of the array changed in place
Z0 = np.array([-.55, .45, 1.15])[:, None]

def leaves(k): return k.flattened_parameters
def alphabet(name, full):
    k = MAKE[name](); n = len(leaves(k)); names = [p.name for p in leaves(k)]
    evals = [('K', 'X'), ('K', 'X', 'Z'), ('Kdiag', 'X'), ('grad', 'X')]
    if not full:
        which = next((i for i, p in enumerate(names) if p in ('location', 'offset', 'period')), 0) # The parameters likeliest to be propagated or cached
        last = next((i for i, p in reversed(list(enumerate(names))) if p in ('width', 'slope', 'lengthscale')), n - 1)
        return [('set', i, v) for i in dict.fromkeys((which, last)) for v in (0,)] + [('all', 1), ('nudge',)] + evals[:2] + [('grad', 'X'), ('mutate',)] + [('copy',), ('switch',)]
    sets = [('set', i, v) for i in range(n) for v in (0, 1)] + [('all', 0), ('all', 1), ('opt', 0), ('opt', 1), ('nudge',), ('randomize',)]
    return sets + evals + [('K', 'Z'), ('K', 'X', 'X'), ('K', 'Z', 'X'), ('Kdiag', 'Z'), ('grad', 'X', 'Z'), ('grad', 'Z'), ('K', 'plain'), ('mutate',), ('copy',), ('switch',), ('pickle',)]

def de_bruijn(k, n):
    '''A cyclic sequence over range(k) with every n-tuple once'''
    a, seq = [0] * k * n, []
    def db(t, p):
        if t > n:
            if n % p == 0: seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]; db(t + 1, p)
            for j in range(a[t - p] + 1, k): a[t] = j; db(t + 1, t)
    db(1, 1); return seq

CHUNK = 1500
def plans(tier): return [(True, 3 if tier == 'thorough' else 2), (False, 5 if tier == 'thorough' else 4)]
def cases(tier):
    for name in MAKE:
        for full, d in plans(tier):
            if not full and name in map(show, EXPRS): d -= 1 # Slower ones
            total = len(alphabet(name, full)) ** d
            for lo in range(0, total, CHUNK): yield [name, full, d, lo, min(total, lo + CHUNK)]

_seqs, _fresh = {}, {}
VALUES = {}
def vectors(name):
    if name not in VALUES:
        names = [p.name for p in leaves(MAKE[name]())]
        VALUES[name] = [np.array(ref.values_for(['variance' if n == 'shift_variance' else n for n in names], w)) for w in (0, 1)]
    return VALUES[name]

def upstream(n, m, sym):
    G = np.cos(np.arange(n)[:, None] * 1.3 + np.arange(m)[None, :] * 2.9 + .4) + .2
    return G + G.T if sym else G

def ev(k, op, arrays):
    A = [arrays[a] for a in op[1:]]
    if op[0] == 'K': return np.array(k.K(*A))
    if op[0] == 'Kdiag': return np.array(k.Kdiag(*A))
    k.update_gradients_full(upstream(len(A[0]), len(A[-1]), len(A) == 1), *(A if len(A) == 2 else A + [None]))
    return np.array(k.gradient)

def fresh(name, vals, op, content):
    key = name, vals.tobytes(), op, content
    if key not in _fresh:
        if len(_fresh) > 20000: _fresh.clear()
        k = MAKE[name]()
        for p, v in zip(leaves(k), vals): p[0] = v
        _fresh[key] = ev(k, op, dict(X = X0[content].copy(), Z = Z0.copy(), plain = X0[content].copy()))
    return _fresh[key]

def check(case):
    name, full, d, lo, hi = case
    ops = alphabet(name, full)
    if (len(ops), d) not in _seqs: _seqs[len(ops), d] = de_bruijn(len(ops), d)
    seq = _seqs[len(ops), d]
    hist = [ops[seq[i % len(seq)]] for i in range(lo - d + 1, hi)]
    vec = vectors(name); k, other = MAKE[name](), None
    content = 0; arrays = dict(X = ObsAr(X0[0].copy()), Z = ObsAr(Z0.copy()), plain = X0[0].copy())
    vals = np.array([float(p[0]) for p in leaves(k)]); ovals = None; n = 0
    for i, op in enumerate(hist):
        say = lambda: f'{name}: after {hist[max(0, i - d):i]}'
        if op[0] == 'set': v = vec[op[2]][op[1]]; leaves(k)[op[1]][0] = v; vals = vals.copy(); vals[op[1]] = v
        elif op[0] == 'all':
            if len(vals): k[:] = vec[op[1]]
            vals = vec[op[1]].copy()
        elif op[0] == 'nudge': # A step as small as optimisers end with
            vals = vals + 3e-7 * (1 + np.abs(vals))
            if len(vals): k[:] = vals
        elif op[0] == 'opt': # As optimisers set parameters
            src = MAKE[name]()
            for p, v in zip(leaves(src), vec[op[1]]): p[0] = v
            k.optimizer_array = src.optimizer_array.copy()
            now = np.array([float(p[0]) for p in leaves(k)])
            require(np.allclose(now, vec[op[1]], rtol = 1e-7), lambda: f'{say()}, setting its parameters through the optimiser leaves {now} rather than {vec[op[1]]}'); vals = now
        elif op[0] == 'randomize':
            np.random.seed(5); k.randomize(); vals = np.array([float(p[0]) for p in leaves(k)])
        elif op[0] == 'mutate':
            content = 1 - content; arrays['X'][:] = X0[content]; arrays['plain'] = X0[content].copy()
        elif op[0] == 'copy':
            other, ovals = k, vals; k = k.copy()
            require(k is not other, lambda: f'{say()}, copying returned the very same kernel')
        elif op[0] == 'pickle': k = pickle.loads(pickle.dumps(k))
        elif op[0] == 'switch':
            if other is not None: k, other, vals, ovals = other, k, ovals, vals
        else:
            got, want = ev(k, op, arrays), fresh(name, vals, op, content); n += 1
            require(got.shape == want.shape and np.allclose(got, want, rtol = 1e-10, atol = 1e-12), lambda: f'{say()}, {op} gives\n{got}\nbut a new kernel with the same parameters {vals} gives\n{want}')
            continue
        for kk, vv, who in ((k, vals, 'it'), (other, ovals, 'the other of original and copy')):
            if kk is None: continue
            now = np.array([float(p[0]) for p in leaves(kk)])
            require(now.shape == vv.shape and np.all(now == vv), lambda: f'{say()} and {op}, {who} has the parameters {now} rather than {vv}')
    return dict(evaluations = n, transitions = len(hist), states = hi - lo, traces = 1, distinct = [str(case[:4])], sample = f'{name}: {hist[d:d + 6]}')
