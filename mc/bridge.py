'''Between reference terms (mc.terms) and the real expressions, kernels and models of the code under test.'''
import copy, itertools
import numpy as np
from mc.terms import *
from mc.driver import fail, require, Violation
from GPy_ABCD.KernelExpressions.all import KernelExpression, SumKE, ProductKE, ChangeKE

def T(x): return tuple(T(y) for y in x) if isinstance(x, (list, tuple)) else x # Terms come back from JSON as lists

# -- terms -> expressions

def build(t, top = True, init = True):
    '''The expression of a (possibly raw) term, through the constructors only.'''
    if isinstance(t, str): return SumKE([t])._initialise() if top else t
    if t[0] in '+*':
        ks = [build(k, False) for k in t[1]]
        res = (SumKE if t[0] == '+' else ProductKE)([k for k in ks if isinstance(k, str)], [k for k in ks if not isinstance(k, str)])
    else: res = ChangeKE(t[0], build(t[1], False), build(t[2], False))
    return res._initialise() if top and init else res

def term(k):
    '''The term of an expression as it stands (no simplification whatsoever).'''
    if isinstance(k, str): return k
    if isinstance(k, ChangeKE): return (k.CP_or_CW, term(k.left), term(k.right))
    require(isinstance(k, (SumKE, ProductKE)), lambda: f'{k!r} is no kernel expression')
    neg = {b: n for b, n in k.base_terms.items() if n < 0}
    require(not neg, lambda: f'negative multiplicities in {dict(k.base_terms)}')
    return mk('+' if isinstance(k, SumKE) else '*', list(k.base_terms.elements()) + [term(c) for c in k.composite_terms])

def root_term(k):
    '''As term, but of a root, where a base kernel on its own is necessarily wrapped (in a sum)'''
    t = term(k)
    return t[1][0] if t[0] == '+' and len(t[1]) == 1 and isinstance(t[1][0], str) else t

def nodes(k):
    '''All expression nodes of a tree (not through the code's own traversal)'''
    if isinstance(k, str): return []
    kids = [k.left, k.right] if isinstance(k, ChangeKE) else k.composite_terms
    return [k] + [n for c in kids for n in nodes(c)]

def well_formed(k, what = 'tree'):
    require(k.parent is None, lambda: f'the root of {what} {k!r} has a parent')
    def go(n):
        require(n.root is k, lambda: f'in {what} {k!r}, node {n!r} has {n.root!r} (another object) as root')
        for c in ([n.left, n.right] if isinstance(n, ChangeKE) else n.composite_terms):
            if isinstance(c, str): require(isinstance(n, ChangeKE), lambda: f'raw string {c} among the composite terms of {n!r}'); continue
            require(c.parent is n, lambda: f'in {what} {k!r}, node {c!r} does not have its actual parent {n!r} as parent but {c.parent!r}')
            go(c)
    go(k)

def is_normal(k, what = 'expression'):
    t = root_term(k)
    require(t == nf(t), lambda: f'{what} {show(t)} is not in normal form ({show(nf(t))})')
    if isinstance(t, str): require(isinstance(k, SumKE), lambda: f'root base kernel not in a sum: {k!r}')
    return t

def orders(t):
    '''All raw trees which differ from t in the order of terms only (t's own order first)'''
    if isinstance(t, str): yield t; return
    if t[0] in '+*':
        seen = set()
        for perm in itertools.permutations(t[1]):
            if perm in seen: continue
            seen.add(perm)
            for kids in itertools.product(*[list(orders(k)) for k in perm]): yield (t[0], tuple(kids))
    else:
        for l in orders(t[1]):
            for r in orders(t[2]): yield (t[0], l, r)

def few_orders(t):
    '''Some of orders(t), for terms too wide for all of them: as is, reversed throughout, rotated, and with the two halves of each sum and product swapped'''
    def arranged(t, f): return t if isinstance(t, str) else (t[0], tuple(f([arranged(k, f) for k in t[1]]))) if t[0] in '+*' else (t[0], arranged(t[1], f), arranged(t[2], f))
    return list(dict.fromkeys(arranged(t, f) for f in (list, lambda l: l[::-1], lambda l: l[1:] + l[:1], lambda l: l[len(l) // 2:] + l[:len(l) // 2], lambda l: l[::2] + l[1::2])))

def build_ordered(t, top = True):
    '''As build but passing base terms and composite terms in the exact order of t'''
    return build(t, top)

# -- positions in terms (of NORMAL terms): the places productions apply to

def positions(t, path = (), parent = None):
    '''(path, subterm) of every internal node and of every base kernel standing alone at the root or as a branch of a change operator'''
    if isinstance(t, str):
        if parent in (None, 'CP', 'CW'): yield path, t
        return
    yield path, t
    if t[0] in '+*':
        for i, k in enumerate(t[1]): yield from positions(k, path + ((1, i),), t[0])
    else:
        for i in (1, 2): yield from positions(t[i], path + ((i,),), t[0])

def replaced(t, path, new):
    if not path: return new
    step, rest = path[0], path[1:]
    if len(step) == 2: return (t[0], tuple(replaced(k, rest, new) if i == step[1] else k for i, k in enumerate(t[1])))
    return tuple(replaced(k, rest, new) if i == step[0] else k for i, k in enumerate(t))
