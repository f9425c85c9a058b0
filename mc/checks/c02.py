import re
from copy import deepcopy
from mc.bridge import *

LEVEL = 'model_checking'
RULE = 'pairs: every expression of the pool against every other one and against itself in every term order (both directions); near: an expression in several term orders against itself and against every expression one edit away (a term or base kernel replaced, dropped or doubled, branches swapped, an operator replaced); round trips and queries: one case per expression; non-trivial = pairs of different expressions with the same base kernels, and expressions with at least two terms'
def bounds(tier): return f'pool for pairs: all normal forms with <= 3 leaves ({len(normal_terms(3))}), and 4 leaves over 2 base kernels; round trips, queries and near pairs: all normal forms with <= 4 leaves' + (', 5 over 3 base kernels' if tier == 'thorough' else '') + f'; round trips, queries and near pairs also on {thin_bounds(tier)}'

POOL = []
def setup(tier):
    global POOL
    ts = list(normal_terms(3)) + [t for t in normal_terms(4, ('LIN', 'PER')) if size(t) == 4]
    if tier == 'thorough': ts += [t for t in normal_terms(4, ('LIN', 'SE', 'C')) if size(t) == 4]
    POOL = [(t, build(t)) for t in dict.fromkeys(ts)]

def cases(tier):
    for i in range(len(POOL)): yield ['pairs', POOL[i][0]]
    for t in normal_terms(4): yield ['forms', t]
    for t in normal_terms(4):
        if size(t) == 4: yield ['near', t]
    for t in thin_terms(*THIN[tier]):
        if size(t) > 4: yield ['forms', t]; yield ['near', t]
    if tier == 'thorough':
        for t in normal_terms(5, ('LIN', 'SE', 'WN')):
            if size(t) == 5: yield ['forms', t]

def check(case): return {'pairs': pairs, 'forms': forms, 'near': near}[case[0]](T(case[1]))

def eq(a, b, want, ta, tb):
    ab, ba = a == b, b == a
    require(ab is want or (ab == want and isinstance(ab, bool)), lambda: f'{show(ta)} == {show(tb)} is {ab}')
    require(ba == want, lambda: f'{show(tb)} == {show(ta)} is {ba} (but the opposite comparison is right)')
    require((a != b) == (not want), lambda: f'{show(ta)} != {show(tb)} is {a != b}')

def pairs(t):
    k, n, bs = build(t), 0, sorted(bases_of(t))
    distinct = []
    for t2, k2 in POOL:
        eq(k, k2, t2 == t, t, t2); n += 1
        if t2 != t and sorted(bases_of(t2)) == bs: distinct.append((show(t), show(t2)))
    os = [build(o) for o in orders(t)]
    for a in os:
        for b in os: eq(a, b, True, t, t); n += 1
    for other in (t, str(k), None, 1, [k]): require(not (k == other) if not isinstance(other, str) else True, f'{show(t)} equals {other!r}')
    # The same expression wherever it sits
    for ctx in (lambda x: SumKE(['PER'], [x]), lambda x: ProductKE(['PER'], [x]), lambda x: ChangeKE('CP', x, 'PER'), lambda x: ChangeKE('CW', 'PER', x)):
        if isinstance(t, str): continue
        whole = ctx(build(t))._initialise()
        subs = [m for m in nodes(whole)[1:]]
        if t[0] == {'SumKE': '+', 'ProductKE': '*'}.get(type(whole).__name__): continue # Flattened into it
        require(sum(1 for m in subs if term(m) == t) == 1, lambda: f'{show(t)} is not a node of {whole!r}')
        m = next(m for m in subs if term(m) == t)
        eq(m, k, True, t, t); eq(m, whole, False, t, root_term(whole)); n += 2
    return dict(evaluations = n, distinct = distinct)

def near(t):
    '''Term orders of an expression are equal to each other, and to none of the expressions one step away from it'''
    os, n = [build(o) for o in few_orders(t)], 0
    for a in os:
        for b in os: eq(a, b, True, t, t); n += 1
    distinct = []
    for m in dict.fromkeys(map(nf, neighbours(t))):
        if m == t: continue
        os2 = [build(o) for o in few_orders(m)[:2]]
        for a in os[-1:]:
            for b in os2: eq(a, b, False, t, m); n += 1
        distinct.append((show(t), show(m)))
    return dict(evaluations = n, distinct = distinct)

def neighbours(t):
    '''One base kernel replaced by another, dropped or doubled; one composite term dropped or doubled; the branches of one change operator swapped; one operator replaced'''
    if isinstance(t, str):
        yield from (b for b in BASES if b != t); return
    if t[0] in '+*':
        yield mk('+*'[t[0] == '+'], t[1])
        for i, k in enumerate(t[1]):
            rest = t[1][:i] + t[1][i + 1:]
            yield mk(t[0], rest) if len(rest) > 1 else rest[0]
            yield mk(t[0], t[1] + (k,))
            for k2 in neighbours(k): yield mk(t[0], rest + (k2,))
        for i in range(len(t[1])):
            for j in range(len(t[1])): # The same distinct terms with other multiplicities
                if t[1][i] != t[1][j]: yield mk(t[0], t[1][:i] + (t[1][j],) + t[1][i + 1:])
    else:
        yield ('CW' if t[0] == 'CP' else 'CP', t[1], t[2]); yield (t[0], t[2], t[1]); yield t[1]; yield t[2]; yield mk('+', t[1:])
        for k in neighbours(t[1]): yield (t[0], k, t[2])
        for k in neighbours(t[2]): yield (t[0], t[1], k)

def forms(t):
    k = build(t)
    back = eval(repr(k), dict(SumKE = SumKE, ProductKE = ProductKE, ChangeKE = ChangeKE))
    require(type(back) == type(k) and back == k and root_term(back._initialise()) == t, lambda: f'repr {k!r} evaluates to {back!r}')
    got = parse(str(k))
    require(got == t, lambda: f'printed form {str(k)!r} of {show(t)} reads as {show(got)}')
    bs = set(bases_of(t))
    for b in BASES:
        require(k.contains_base(b) == (b in bs), lambda: f'{k}: contains_base({b}) is {k.contains_base(b)}')
        for b2 in BASES: require(k.contains_base([b, b2]) == bool({b, b2} & bs), lambda: f'{k}: contains_base([{b}, {b2}]) is {k.contains_base([b, b2])}')
    stat = 'LIN' not in bs and not has_change(t)
    require(k.is_stationary() == stat, lambda: f'{k}: is_stationary() is {k.is_stationary()}')
    if not isinstance(k, ChangeKE):
        want = 1 if isinstance(t, str) else len(t[1])
        require(k.term_count() == want, lambda: f'{k}: term_count() is {k.term_count()}')
    c = k.reduce(lambda node, acc: acc + [node], [])
    want = sum(1 for _ in positions(t))
    require(len(c) == want and len(k.traverse()) == want, lambda: f'{k}: reduce sees {len(c)} nodes and traverse {len(k.traverse())} instead of {want}')
    return dict(evaluations = 1, **(dict(distinct = show(t)) if size(t) > 1 else {}))

def has_change(t): return not isinstance(t, str) and (t[0] in ('CP', 'CW') or any(map(has_change, t[1])))

# -- An independent reader of printed forms: * binds tighter than +, parentheses, CP(a, b), CW(a, b)

def parse(s):
    toks = re.findall(r'[A-Za-z]+|[()+*,]', s)
    require(''.join(toks) == s.replace(' ', ''), f'unreadable printed form {s!r}')
    pos = 0
    def peek(): return toks[pos] if pos < len(toks) else None
    def take(x = None):
        nonlocal pos
        require(pos < len(toks) and (x is None or toks[pos] == x), f'unreadable printed form {s!r}')
        pos += 1; return toks[pos - 1]
    def sums():
        ts = [prods()]
        while peek() == '+': take(); ts.append(prods())
        return ts[0] if len(ts) == 1 else mk('+', [x for y in ts for x in (y[1] if not isinstance(y, str) and y[0] == '+' else [y])])
    def prods():
        ts = [atom()]
        while peek() == '*': take(); ts.append(atom())
        return ts[0] if len(ts) == 1 else mk('*', [x for y in ts for x in (y[1] if not isinstance(y, str) and y[0] == '*' else [y])])
    def atom():
        if peek() == '(':
            take(); r = sums(); take(')'); return r
        w = take()
        if w in ('CP', 'CW'):
            take('('); l = sums(); take(','); r = sums(); take(')'); return (w, l, r)
        require(w in BASES, f'unknown word {w} in printed form {s!r}')
        return w
    r = sums()
    require(pos == len(toks), f'unreadable printed form {s!r}')
    return r
