from mc.bridge import *
from GPy_ABCD.KernelExpansion.grammar import standardise_singleton_root

LEVEL = 'model_checking'
RULE = 'one case = one raw tree (all trees up to the bound: any nesting, same-kind nesting, singleton wrappers, multiplicities), checked in every order of its terms, in one go and built up term by term; and long thin and wide trees far beyond that bound, with many copies of base kernels, same-kind children and wrappers (in a few orders); and every live sum or product within every normal form with one more term added to it before simplifying again from the root; non-trivial = not already in normal form'
def bounds(tier): return 'flat trees with <= 4 leaves over 5 base kernels in all term orders; arbitrary nestings with <= 3 leaves and <= 2 singleton wrappers' + (', and with 4 leaves over 3 base kernels; flat 5-leaf trees over 3 base kernels' if tier == 'thorough' else ', and 4 leaves over 2 base kernels') + f'; {thin_bounds(tier)}'

def raw_trees(n, bases, wraps):
    '''All trees with n leaves and exactly `wraps` singleton sums/products around something; same-kind nesting allowed'''
    if wraps > 0:
        for t in raw_trees(n, bases, wraps - 1):
            for w in wrapped(t): yield w
        return
    if n == 1: yield from bases; return
    for part in partitions(n):
        if len(part) < 2: continue
        for kids in itertools.product(*[list(raw_trees(p, bases, 0)) for p in part]):
            if any(a == b and repr(x) > repr(y) for a, b, x, y in zip(part, part[1:], kids, kids[1:])): continue # Up to order here: orders are explored by the check
            for op in '+*': yield (op, kids)
    for i in range(1, n):
        for l in raw_trees(i, bases, 0):
            for r in raw_trees(n - i, bases, 0):
                for op in ('CP', 'CW'): yield (op, l, r)
def wrapped(t):
    '''t with one more singleton wrapper, at any place'''
    for op in '+*': yield (op, (t,))
    if isinstance(t, str): return
    if t[0] in '+*':
        for i, k in enumerate(t[1]):
            for w in wrapped(k): yield (t[0], t[1][:i] + (w,) + t[1][i + 1:])
    else:
        for i in (1, 2):
            for w in wrapped(t[i]): yield tuple(w if j == i else x for j, x in enumerate(t))

def cases(tier):
    seen = set()
    def gen():
        for n in (1, 2, 3, 4): yield from flat_terms(n)
        for n in (1, 2, 3):
            for w in (0, 1, 2):
                if (n, w) != (3, 2): yield from raw_trees(n, BASES, w)
        yield from raw_trees(3, ('LIN', 'C') if tier == 'quick' else BASES, 2)
        if tier == 'thorough': yield from raw_trees(4, ('WN', 'LIN', 'C'), 0); yield from raw_trees(4, ('SE', 'LIN'), 1); yield from flat_terms(5, ('WN', 'LIN', 'SE'))
        else: yield from raw_trees(4, ('WN', 'LIN'), 0); yield from raw_trees(4, ('SE', 'C'), 0)
    for t in gen():
        if t not in seen: seen.add(t); yield t
    for t in (normal_terms(3) if tier == 'quick' else list(normal_terms(3)) + [t for t in normal_terms(4, ('LIN', 'WN', 'C')) if size(t) == 4]):
        if not isinstance(t, str): yield ['grow', t]
    for t in itertools.chain(thin_raw(*THIN[tier]), wide_raw(7 if tier == 'quick' else 10)):
        if t not in seen: seen.add(t); yield ['thin', t]

def wide_raw(wide):
    '''Many copies of every base kernel, alone and next to another; many same-kind children and singleton wrappers, alone, nested in one another and next to other terms'''
    for op in '+*':
        other = '*' if op == '+' else '+'
        for b in BASES:
            for n in range(5, wide + 1):
                yield mk(op, (b,) * n); yield mk(op, (b,) * n + ((op, (b,) * n),)); yield ('CP', mk(op, (b,) * n), mk(other, (b,) * n))
                for c in BASES:
                    if c != b: yield mk(op, (b,) * n + (c,)); yield mk(op, (b,) * n + (c,) * n)
            yield mk(op, (b,) * 13)
        for x, y in itertools.permutations(BASES, 2):
            kids = ((op, (x, y)), (op, (x, x)), (other, (x,)), (op, ((other, (x, y)), y)), (op, (('CP', x, y), (op, (y, y)))), ('CW', x, (op, (y,))))
            for n in range(3, wide):
                for k in kids: yield (op, (k,) * n); yield (op, (k,) * n + (y,))
                yield (op, (kids * 2)[:n]); yield (op, (kids[::-1] * 2)[:n] + (x,))

def check(case):
    if case[0] == 'grow': return grow_inside(T(case[1]))
    thin = case[0] == 'thin'
    t = T(case[1] if thin else case); want = nf(t); n = 0
    for o in few_orders(t) if thin else orders(t):
        k = build(o); n += 1
        one(k, o, want)
        one(build(o, init = False).set_root(), o, want) # Constructors simplify too
    step = grow(t)
    if step is not None: one(step, t, want); n += 1
    return dict(evaluations = n, **(dict(distinct = show(t)) if t != want else dict(normal_forms = 1)))

def one(k, o, want):
    raw = term(k)
    require(raw == want or raw in (('+', (want,)), ('*', (want,))), lambda: f'simplifying {show(o)} gives {show(raw)} rather than {show(want)}') # All done but for the singleton root
    simplified = standardise_singleton_root(k)
    got = root_term(simplified)
    require(got == want, lambda: f'{show(o)} simplifies to {show(got)} rather than {show(want)}')
    well_formed(simplified)
    again = standardise_singleton_root(simplified._initialise())
    require(root_term(again) == want, lambda: f'simplifying {show(want)} again gives {show(root_term(again))}')

def grow(t):
    '''Sums and products built by adding one term at a time to an empty one'''
    if isinstance(t, str) or t[0] not in '+*': return None
    k = (SumKE if t[0] == '+' else ProductKE)([]).set_root()
    for c in t[1]:
        if isinstance(c, str): k.new_base(c)
        else: k.new_composite(build(c))
    if len(t[1]) > 1 and all(isinstance(c, str) for c in t[1]): # Also all at once
        k2 = (SumKE if t[0] == '+' else ProductKE)([]).set_root().new_base(list(t[1]))._initialise()
        require(root_term(standardise_singleton_root(k2)) == nf(t), lambda: f'adding {t[1]} at once to an empty {t[0]} gives {k2!r}')
    return k._initialise()

ADDED = BASES + (('+', ('LIN', 'PER')), ('*', ('LIN', 'PER')), ('+', ('WN',)), ('*', ('C',)), ('CP', 'SE', ('*', ('SE', 'LIN'))))
def grow_inside(t):
    '''Every term of ADDED added to every live sum or product within an expression, which is then simplified from its root'''
    n = 0
    def with_added(k, node, w): # The term of k, were w added to the node
        if isinstance(k, str): return k
        if isinstance(k, ChangeKE): return (k.CP_or_CW, with_added(k.left, node, w), with_added(k.right, node, w))
        return ('+' if isinstance(k, SumKE) else '*', tuple(list(k.base_terms.elements()) + [with_added(c, node, w) for c in k.composite_terms] + ([w] if k is node else [])))
    for i in range(len(nodes(build(t)))):
        for w in ADDED:
            k = build(t); node = nodes(k)[i]
            if isinstance(node, ChangeKE): break
            raw = with_added(k, node, w)
            if isinstance(w, str): node.new_base(w)
            else: node.new_composite(build(w, False))
            one(k._initialise(), raw, nf(raw)); n += 1
    return dict(evaluations = n, distinct = 'in ' + show(t))
