'''Curves sampled from kernels, and pictures of them.'''
import itertools, os, tempfile, shutil
import numpy as np
from mc.driver import fail, require
from mc.bridge import *
from mc import ref
from mc.checks.c10 import SPEC
from GPy_ABCD.Kernels import baseKernels as bk
from GPy_ABCD.Util import kernelUtil as ku

LEVEL = 'model_checking'
RULE = 'every kernel of the list x number of curves x limits x one or a new random kernel per curve, normal draws being recorded (and replaced by known ones); the plotted data must be exactly the draws, each made with zero mean and the covariance, by the documented formulas, of the kernel as it was then; a state is a combination, a transition a draw'
def bounds(tier): return '13 kernels (all base, sigmoid and change ones, an expression), 4 numbers of curves, 5 limits, 2 flags; saved pictures of lists of 0-3 kernels'
ASSUMPTIONS = ['draws are made by numpy.random.multivariate_normal (otherwise only their number and places are checked)']
EXPR = ('+', ('LIN', ('*', ('PER', 'SE'))))
KERS = {**{b: getattr(bk, b) for b in ('WN', 'C', 'LIN', 'SE', 'PER', 'S', 'Sr', 'SI', 'SIr')}, 'CP': lambda: bk.CP(bk.PER(), bk.LIN()), 'CW': lambda: bk.CW(bk.PER(), bk.LIN()), 'PER+LIN': lambda: bk.PER() + bk.LIN(), 'expr': lambda: build(EXPR).to_kernel()}

def cases(tier):
    for k in KERS:
        for n in (1, 2, 3, 5): yield ['curves', k, n]
    for n in range(4): yield ['files', n]

def check(case): return globals()['do_' + case[0]](*case[1:])

class Draws: # In the place of numpy's
    def __init__(self, ker): self.ker, self.calls = ker, []
    def __call__(self, mean, cov, size = None, *a, **k):
        m = 1 if size is None else int(size); n = len(mean)
        Z = np.cos(np.arange(n)[None, :] * .37 + 1.9 * (len(self.calls) + np.arange(m)[:, None] * 3.3)) # Distinct curves
        self.calls.append((np.array(mean), np.array(cov), np.array(self.ker.param_array), Z))
        return Z[0] if size is None else Z

def do_curves(name, n):
    done = 0
    for xlims, same in itertools.product(((-3., 3.), (0., 1.), (-7., -2.), (2., 5.), (-1., 40.)), (False, True)):
        k = KERS[name](); start = np.array(k.param_array); d = Draws(k); real = np.random.multivariate_normal; np.random.seed(3)
        if xlims == (-3., 3.) and n == 5 and not same: f = lambda: ku.sampleCurves(k) # The defaults
        else: f = lambda: ku.sampleCurves(k, xlims, n, same)
        np.random.multivariate_normal = d
        try: g = f()
        finally: np.random.multivariate_normal = real
        what = f'{n} sample curves of {name} over {xlims}, of one kernel: {same}'
        data = g.data; groups = [data[data['variable'] == v] for v in data['variable'].unique()]; X = np.linspace(*xlims, 500)
        require(len(groups) == n, lambda: f'{what}: {len(groups)} are plotted')
        for q in groups: require(len(q) == 500 and np.allclose(q['X'].to_numpy(float), X), lambda: f'{what}: drawn at {q["X"].to_numpy()} rather than 500 points of the limits')
        if not d.calls: continue # Drawn in another way
        drawn = [(c, z) for c in d.calls for z in c[3]]; done += len(drawn)
        require(len(drawn) == n, lambda: f'{what}: {len(drawn)} are drawn')
        for q, (c, z) in zip(groups, drawn): require(np.allclose(q['value'].to_numpy(float), z), lambda: f'{what}: the plotted values are not those drawn')
        for mean, cov, pars, _ in d.calls:
            fresh = KERS[name](); fresh[:] = pars; want = fresh.K(X[:, None])
            require(np.all(mean == 0) and np.allclose(cov, want, rtol = 1e-9, atol = 1e-12), lambda: f'{what}: draws with another covariance than that of the kernel with parameters {pars}')
        distinct = {tuple(c[2]) for c, _ in drawn}
        require(len(distinct) == (1 if same else n) and tuple(start) not in distinct, lambda: f'{what}: {len(distinct)} kernels are drawn from')
    return dict(evaluations = done, transitions = done, states = 10, traces = 10, distinct = [f'{name} {n}'], sample = f'{n} curves of {name}: {done} draws')

def do_files(n):
    d = tempfile.mkdtemp(prefix = 'mc24'); old = os.getcwd(); names = list(KERS)[:n]; done = 0
    try:
        os.chdir(d)
        for sub in ('plain', 'slash', 'relative'):
            p = os.path.join(d, sub); os.mkdir(p)
            ku.saveKernelSamples([KERS[x]() for x in names], [f'of {x}' for x in names], {'plain': p, 'slash': p + os.sep, 'relative': sub}[sub], n_curves = 2, same_kernel = sub == 'plain'); done += n
            got = sorted(os.listdir(p))
            require(got == sorted(f'of {x}.png' for x in names), lambda: f'saving samples of {names} in a folder leaves {got} there (and {sorted(os.listdir(d))} in the current one)')
            for x in got: require(open(os.path.join(p, x), 'rb').read(8) == b'\x89PNG\r\n\x1a\n', lambda: f'{x} is no picture')
        require(sorted(os.listdir(d)) == ['plain', 'relative', 'slash'], lambda: f'saving samples leaves {os.listdir(d)} in the current folder')
    finally: os.chdir(old); shutil.rmtree(d)
    return dict(evaluations = done, transitions = done, states = 3, traces = 3, distinct = [f'files {n}'])
