'''Reference model of kernel expressions: plain immutable terms, written without looking at any GPy_ABCD class.

A term is one of
    'WN' | 'C' | 'LIN' | 'SE' | 'PER'               a base kernel
    ('+', (t, ...))   ('*', (t, ...))               a sum / a product (children sorted, duplicates kept)
    ('CP', l, r)      ('CW', l, r)                  a change-point / change-window

`nf` is the documented self-simplification run to its fixpoint (naively: rewrite until nothing changes).
'''
from itertools import combinations_with_replacement, product
from functools import lru_cache

BASES = ('C', 'LIN', 'PER', 'SE', 'WN')
LIN_ABSORBS_C = True # Set by configuration-sweeping checks


def key(t): return (0, t) if isinstance(t, str) else (1, t[0], len(t[1]) if t[0] in '+*' else 0, repr(t))
def mk(op, ts): return (op, tuple(sorted(ts, key = key)))


def _step(t):
    '''One bottom-up pass of the documented rewrite rules.'''
    if isinstance(t, str): return t
    if t[0] in ('CP', 'CW'): return (t[0], _step(t[1]), _step(t[2]))
    op = t[0]
    kids = []
    for k in map(_step, t[1]): # flatten sums in sums and products in products
        if not isinstance(k, str) and k[0] == op: kids += k[1]
        else: kids.append(k)
    strs, comps = [k for k in kids if isinstance(k, str)], [k for k in kids if not isinstance(k, str)]
    if op == '+':
        for b in ('WN', 'C'): # addition-idempotent
            if b in strs: strs = [s for s in strs if s != b] + [b]
        if LIN_ABSORBS_C and 'LIN' in strs: strs = [s for s in strs if s != 'C'] # an offset-bearing LIN makes C redundant
    else:
        if 'WN' in strs: # multiplicative zero of the stationary kernels, and idempotent
            strs = [s for s in strs if s == 'LIN'] + ['WN']
        else:
            if 'C' in strs: # multiplicative identity: kept only if it is all there is
                rest = [s for s in strs if s != 'C']
                strs = rest if rest or comps else ['C']
            if 'SE' in strs: strs = [s for s in strs if s != 'SE'] + ['SE'] # multiplication-idempotent
    kids = strs + comps
    return kids[0] if len(kids) == 1 else mk(op, kids)

def nf(t):
    while True:
        n = _step(t)
        if n == t: return n
        t = n


def size(t): return 1 if isinstance(t, str) else sum(map(size, t[1])) if t[0] in '+*' else size(t[1]) + size(t[2])
def depth(t): return 0 if isinstance(t, str) else 1 + max(map(depth, t[1] if t[0] in '+*' else t[1:]))
def show(t):
    if isinstance(t, str): return t
    if t[0] in '+*': return '(' + f' {t[0]} '.join(map(show, t[1])) + ')' if t[1] else f'({t[0]} of nothing)'
    return f'{t[0]}({show(t[1])}, {show(t[2])})'
def bases_of(t): return [t] if isinstance(t, str) else [b for k in (t[1] if t[0] in '+*' else t[1:]) for b in bases_of(k)]


## Bounded enumeration (simplest first)

@lru_cache(None)
def flat_terms(n, bases = BASES, ops = ('+', '*', 'CP', 'CW')):
    '''All terms with exactly n base leaves, up to reordering of sums and products, with no sum directly in a sum etc (but NOT otherwise simplified).'''
    if n == 1: return tuple(bases)
    out = []
    for op in ops:
        if op in '+*':
            for part in partitions(n):
                if len(part) < 2: continue
                # group equal part sizes to choose multisets
                groups = {}
                for p in part: groups[p] = groups.get(p, 0) + 1
                pools = [combinations_with_replacement([t for t in flat_terms(sz, bases, ops) if isinstance(t, str) or t[0] != op], cnt) for sz, cnt in groups.items()]
                for combo in product(*map(list, pools)): out.append(mk(op, [t for c in combo for t in c]))
        else:
            for i in range(1, n): out += [(op, l, r) for l in flat_terms(i, bases, ops) for r in flat_terms(n - i, bases, ops)]
    return tuple(out)

def partitions(n, m = None):
    m = n if m is None else m
    if n == 0: yield (); return
    for i in range(min(n, m), 0, -1):
        for rest in partitions(n - i, i): yield (i,) + rest

@lru_cache(None)
def normal_terms(n, bases = BASES, ops = ('+', '*', 'CP', 'CW')):
    '''All DISTINCT normal forms of terms with up to n leaves, simplest first.'''
    seen, out = set(), []
    for i in range(1, n + 1):
        for t in flat_terms(i, bases, ops):
            f = nf(t)
            if f not in seen: seen.add(f); out.append(f)
    return tuple(sorted(out, key = lambda t: (size(t), depth(t), repr(t))))

THIN = dict(quick = (3, 5), thorough = (4, 6)) # How deep and wide thin terms are
def thin_bounds(tier): return f'thin forms ({len(thin_terms(*THIN[tier]))}): spines of every alternation of {THIN[tier][0]} operators and sums and products of up to {THIN[tier][1]} terms (some of 13), of repeated composites too'

@lru_cache(None)
def thin_raw(deep = 3, wide = 5):
    '''Terms beyond the exhaustive bounds in one dimension only: long spines of every alternation of operators, and wide sums and products (also of repeated composites).'''
    seen = {}
    sides = ('LIN', 'PER', 'SE', 'WN', 'PER', 'LIN')
    put = seen.setdefault
    for d in range(3, deep + 1):
        for ops in product(('+', '*', 'CPl', 'CPr', 'CWl', 'CWr'), repeat = d):
            for shift in (0, 1):
                t = sides[shift]
                for i, op in enumerate(ops):
                    s = sides[(i + shift + 1) % 6]
                    t = mk(op, (s, t)) if op in '+*' else (op[:2], t, s) if op[2] == 'l' else (op[:2], s, t)
                put(t)
    for op in '+*':
        for n in range(4, wide + 1):
            for c in combinations_with_replacement(('LIN', 'PER', 'SE'), n): put(mk(op, c))
        for n in range(4, wide): put(mk(op, ('WN',) + ('LIN',) * n)); put(mk(op, ('C',) + ('PER',) * n))
        put(mk(op, ('LIN',) * 12)); put(mk(op, ('PER',) * 11))
        other = '*' if op == '+' else '+'
        A, B, D = (other, ('LIN', 'PER')), (other, ('LIN', 'SE')), ('CP', 'LIN', 'PER')
        E = ('CW', A, 'LIN')
        for n in range(2, wide - 1):
            for c in combinations_with_replacement((A, B, D, E), n):
                put(mk(op, c)); put(mk(op, c + ('LIN', 'LIN')))
        for n in range(wide - 1, wide + 1): # More composite terms: every two kinds in every number
            for a, b in ((A, B), (A, D), (D, E), (B, E)):
                for i in range(n + 1): put(mk(op, (a,) * i + (b,) * (n - i))); put(mk(op, (a,) * i + (b,) * (n - i) + ('PER', 'LIN')))
        for a in (A, D, E): put(mk(op, (a,) * 11)); put(mk(op, (a,) * 12 + (B,)))
        for ch in ('CP', 'CW'):
            for a in (mk(op, (A, A)), mk(op, (A, A, B)), mk(op, (D, D, 'LIN', 'LIN'))):
                for b in (a, 'LIN', A, D): put((ch, a, b)); put((ch, b, a))
    return tuple(seen)

@lru_cache(None)
def thin_terms(deep = 3, wide = 5):
    '''The normal forms of thin terms, simplest first'''
    return tuple(sorted(set(map(nf, thin_raw(deep, wide))), key = lambda t: (size(t), depth(t), repr(t))))
