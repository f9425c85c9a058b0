'''The environment answers of fits: GPRegression.optimize_restarts replaced by functions which set given parameters (or fail).'''
import contextlib
import numpy as np
from GPy.models import GPRegression
from GPy_ABCD.Models.model import GPModel
from mc import ref

@contextlib.contextmanager
def optimiser(f):
    '''f(model, **what optimize_restarts was called with) sets the fitted parameters'''
    had = 'optimize_restarts' in GPRegression.__dict__
    old = GPRegression.__dict__.get('optimize_restarts')
    def stub(self, num_restarts = 10, robust = False, verbose = True, parallel = False, num_processes = None, **kw):
        return f(self, num_restarts = num_restarts, robust = robust, verbose = verbose, parallel = parallel, **kw)
    GPRegression.optimize_restarts = stub
    try: yield
    finally:
        if had: GPRegression.optimize_restarts = old
        else: del GPRegression.optimize_restarts

def set_model(model, which = 0, noise = None):
    names = list(model.parameter_names_flat())
    vals = ref.values_for(names, which)
    if noise is not None: vals[-1] = noise
    model[:] = vals
    return vals

def fitted(k, X = None, Y = None, which = 0, noise = None, **kw):
    '''A GPModel of expression k "fitted" to generic parameter values'''
    X = ref.X7 if X is None else X
    Y = np.sin(X) + .1 * X if Y is None else Y
    m = GPModel(X, Y, k)
    with optimiser(lambda model, **_: set_model(model, which, noise)): m.fit(restarts = 1, **kw)
    return m
