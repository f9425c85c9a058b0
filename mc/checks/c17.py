'''Histories of GPModel operations against freshly created models.'''
import copy, itertools, pickle
from copy import deepcopy
from mc.bridge import *
from mc import ref, fitting
from GPy_ABCD.Util import modelUtil as mu
from GPy_ABCD.Models.model import GPModel

LEVEL = 'model_checking'
RULE = 'all sequences of operations up to the length on a live model (the outcome of every fit is chosen: three parameter assignments, or failure before or after altering parameters); each operation\'s answer is compared with that of a fresh model put directly in the state the reference predicts (last outcome, restarts known); a final round of all reports follows every sequence; a state is (expression, last outcome, restarts known, last score), a transition one operation'
def bounds(tier): return dict(quick = 'sequences of <= 3 operations out of 13 on 4 expressions (and <= 2 on 14 more)', thorough = 'sequences of <= 4 operations on 4 expressions, <= 3 on 14 more')[tier]
ASSUMPTIONS = ['after a failed fit only consistency with the parameters the model then has is required', 'the internal order of operations in one report does not matter']
DEEP = ['PER', ('+', ('LIN', ('*', ('LIN', 'PER')))), ('CP', ('*', ('PER', 'WN')), 'LIN'), ('*', ('LIN', ('+', ('C', 'PER'))))]
WIDE = ['WN', 'LIN', 'C', 'SE', ('*', ('LIN', 'SE')), ('+', ('PER', 'PER')), ('*', ('LIN', 'LIN')), ('CW', 'LIN', 'LIN'), ('CW', ('+', ('LIN', 'PER')), 'C'), ('CP', ('CW', 'PER', 'LIN'), 'WN'), ('*', ('PER', ('CP', 'LIN', 'C'))), ('+', ('WN', ('CP', 'LIN', 'PER'))), ('*', ('LIN', ('+', ('LIN', ('*', ('PER', 'SE')))))), ('CW', ('CP', 'C', 'LIN'), ('*', ('LIN', 'PER')))]
X = np.array([-2.3, -1.1, -0.4, 0.15, 0.9, 1.6, 2.7, 3.3, 4.1, 4.2, 5., 6., 6.5, 7., 8.])[:, None]; Y = np.sin(X) + .1 * X
Z = np.array([.2, -1.1, 7.5])[:, None]
class Failure(Exception): pass

OPS = ['fit(2)', 'fit()', 'fit(1) B', 'fit(3) fails', 'sop', 'interpret', 'predict', 'BIC', 'AICc', 'deepcopy', 'copy', 'pickle', 'abandoned copy']
def cases(tier):
    for t in DEEP:
        for a in OPS:
            for b in OPS: yield [t, [a, b], 3 if tier == 'quick' else 4]
    for t in WIDE:
        for a in OPS: yield [t, [a], 2 if tier == 'quick' else 3]

VALUES = {}
def values(t, which):
    key = (t, which)
    if key not in VALUES:
        m = fitting.fitted(build(t), X, Y, which = which % 2, noise = (.3, .55, .4)[which])
        if which == 2:
            v = np.array(m.model.param_array) * 1.07; v[-1] = .4
            with fitting.optimiser(lambda model, **_: model.__setitem__(slice(None), v)): m.fit(1)
        VALUES[key] = np.array(m.model.param_array)
    return VALUES[key]
EXPECTED = {}
def expected(t, which):
    '''Every report of a fresh model with these parameters'''
    key = (t, which if isinstance(which, int) else tuple(which))
    if key not in EXPECTED:
        v = values(t, which) if isinstance(which, int) else np.array(which); res = {}
        def fresh():
            m = GPModel(X.copy(), Y.copy(), build(t))
            with fitting.optimiser(lambda model, **_: model.__setitem__(slice(None), v)): m.fit(1)
            return m
        m = fresh(); res['sop'] = sops(m.sum_of_prods_kex)
        m = fresh(); res['interpret'] = m.interpret()
        m = fresh(); res['predict'] = m.predict(Z)
        m = fresh(); res['BIC'] = m.compute_utility(mu.BIC)
        m = fresh(); res['AICc'] = m.compute_utility(mu.AICc)
        EXPECTED[key] = res
    return EXPECTED[key]
def sops(k):
    '''The expanded form with its parameters, as a canonical value'''
    def go(n): return (type(n).__name__, repr(n), sorted((str(b), [sorted((p, round(float(np.asarray(v).reshape(-1)[0]), 9)) for p, v in ps.items()) for ps in l]) for b, l in n.parameters.items() if l), sorted(map(repr, map(go, n.composite_terms))))
    return go(k)

class Run:
    def __init__(self, t):
        self.t, self.k, self.X, self.Y = t, build(t), X.copy(), Y.copy()
        self.m = GPModel(self.X, self.Y, self.k)
        self.fit, self.restarts, self.score, self.count = None, False, None, 0 # The reference state
        self.n, self.trace = 0, []
    def where(self): return f'model of {show(self.t)} after {", ".join(self.trace)}'
    def do(self, op):
        self.trace.append(op); self.n += 1; m = self.m; seen = []
        if op.startswith('fit'):
            arg = None if '()' in op else int(op[4]); fails = 'fails' in op
            which = 2 if 'B' in op else self.count % 2
            v = values(self.t, which)
            def opt(model, **kw):
                seen.append(kw)
                require(np.array_equal(np.asarray(model.X), X) and np.array_equal(np.asarray(model.Y), Y), lambda: f'{self.where()} is fit to other data')
                if fails:
                    if self.count % 2: model[:] = values(self.t, 2) * 1.1
                    raise Failure()
                model[:] = v
            if arg is None and not self.restarts:
                with fitting.optimiser(opt):
                    try: m.fit()
                    except ValueError: require(not seen, lambda: f'{self.where()} with no known restarts is fit before the error'); return
                fail(f'{self.where()}: fit() is not refused although no number of restarts is known')
            self.count += 1
            if arg is not None: self.restarts = arg
            with fitting.optimiser(opt):
                try: r = m.fit() if arg is None else m.fit(arg, 'scg') if 'B' in op else m.fit(restarts = arg)
                except Failure:
                    require(fails, 'unexpected'); self.fit = tuple(np.array(m.model.param_array)) if m.model is not None else None; self.score = None; return
            require(not fails, lambda: f'{self.where()}: the error of the optimiser is lost')
            require(r is m, lambda: f'{self.where()}: fit does not return the model')
            require(len(seen) == 1 and seen[0]['num_restarts'] == self.restarts and seen[0]['optimizer'] == ('scg' if 'B' in op else 'lbfgsb'), lambda: f'{self.where()}: the optimiser was called with {seen}')
            self.fit, self.score = which, None
        elif op in ('sop', 'interpret', 'predict', 'BIC', 'AICc'):
            if self.fit is None:
                try: self.report(op)
                except Exception as e:
                    if op in ('sop', 'interpret'): require(isinstance(e, ValueError), lambda: f'{self.where()}: {op} of an unfit model raises {e!r}')
                    return
                fail(f'{self.where()}: {op} of a model never fit gives an answer')
            got, want = self.report(op), expected(self.t, self.fit)[op]
            self.same(op, got, want)
            if op in ('BIC', 'AICc'): self.score = (op, want)
        else:
            old = m
            new = deepcopy(m) if 'deepcopy' in op or 'abandoned' in op else copy.copy(m) if op == 'copy' else pickle.loads(pickle.dumps(m))
            if 'abandoned' in op: # A deep copy which is then used differently
                with fitting.optimiser(lambda model, **_: model.__setitem__(slice(None), values(self.t, 2) * 1.3)): new.fit(9)
                new.interpret(); new.compute_utility(mu.AIC); new.X[:] = 0
                new.kernel_expression.parameters['junk'] = [1]
            else: self.m = new
            if op in ('deepcopy', 'pickle'): self.X, self.Y = new.X, new.Y
            if op != 'copy': require(new is not old and new.kernel_expression is not old.kernel_expression, lambda: f'{self.where()} shares its expression with its copy')
        self.check_state()
    def report(self, op):
        m = self.m
        return sops(m.sum_of_prods_kex) if op == 'sop' else m.interpret() if op == 'interpret' else m.predict(Z) if op == 'predict' else m.compute_utility(getattr(mu, op))
    def same(self, op, got, want):
        if op == 'predict': ok = all(np.allclose(got[q], want[q], rtol = 1e-9, atol = 1e-12) for q in want)
        elif op in ('BIC', 'AICc'): ok = abs(got - want) <= 1e-9 * (1 + abs(want))
        else: ok = got == want
        require(ok, lambda: f'{self.where()}: {op} is\n{got}\nbut a fresh model with its parameters gives\n{want}')
    def check_state(self):
        m = self.m
        require(np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and np.array_equal(self.X, X) and np.array_equal(self.Y, Y), lambda: f'{self.where()}: its data is altered')
        require(term(m.kernel_expression) == term(build(self.t)), lambda: f'{self.where()}: its expression became {m.kernel_expression!r}')
        require(not any(l for n in nodes(m.kernel_expression) for l in n.parameters.values()), lambda: f'{self.where()}: parameters have been put in its expression')
        well_formed(m.kernel_expression, self.where())
        if self.fit is not None:
            v = values(self.t, self.fit) if isinstance(self.fit, int) else np.array(self.fit)
            require(np.allclose(np.array(m.model.param_array), v, rtol = 1e-12), lambda: f'{self.where()}: its parameters are {np.array(m.model.param_array)} rather than {v}')
        if self.score is None: require(m.cached_utility_function is None and m.cached_utility_function_type is None, lambda: f'{self.where()} still has the score {m.cached_utility_function} ({m.cached_utility_function_type})')
        else: require(m.cached_utility_function_type == self.score[0] and abs(m.cached_utility_function - self.score[1]) <= 1e-9 * (1 + abs(self.score[1])), lambda: f'{self.where()} has the score {m.cached_utility_function} ({m.cached_utility_function_type}) rather than {self.score}')

def check(case):
    t, first, length = T(case[0]), case[1], case[2]
    n, states, seqs = 0, set(), 0
    for rest in itertools.product(OPS, repeat = length - len(first)):
        r = Run(t); r.check_state()
        for op in list(first) + list(rest):
            r.do(op); states.add((show(t), repr(r.fit), r.restarts, repr(r.score)))
        fin = ['sop', 'interpret', 'predict', 'BIC', 'AICc']
        for op in fin[seqs % 5:] + fin[:seqs % 5]: r.do(op)
        n += r.n; seqs += 1
    return dict(evaluations = n, transitions = n, traces = seqs, distinct = states, sample = f'{show(t)}: {first} + {seqs} continuations')
