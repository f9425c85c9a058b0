import pickle
from copy import deepcopy
from mc.bridge import *
from mc import rules
from GPy_ABCD.KernelExpansion import grammar, kernelExpressionOperations as ops

LEVEL = 'model_checking'
RULE = 'breadth-first over operation histories from every start expression, on live objects: states = expressions reached (canonical terms; a well-formed tree has no other state), transitions = operations executed; after each, the result, the operands and every other expression alive are compared with what they must be'
def bounds(tier): return dict(quick = 'start: all normal forms with <= 2 leaves, all operations (12 rules, node replacement at every node, sums/products/changes with partners, copies, pickles, re-simplification, terms added to every node); histories of length <= 2 (second step: structural operations on every distinct result with <= 5 leaves); plus length 1 from all normal forms with 3 leaves',
    thorough = 'as quick, with length 2 from all normal forms with 3 leaves over 3 base kernels and length 3 from the base kernels')[tier] + f'; length 1 from {thin_bounds(tier)}'
ASSUMPTIONS = ['two well-formed trees with the same term have the same futures (checked indirectly: every operation is also compared with the reference rewrite)']

PARTNERS = ['LIN', ('+', ('LIN', 'PER')), ('*', ('PER', 'WN')), ('CP', 'LIN', ('*', ('LIN', 'PER')))]

def cases(tier):
    for t in normal_terms(2): yield [t, 2, 5]
    for t in normal_terms(3):
        if size(t) == 3: yield [t, 1, 0]
    for t in thin_terms(*THIN[tier]):
        if size(t) > 3: yield [t, 1, 0]
    if tier == 'thorough':
        for t in normal_terms(3, ('LIN', 'C', 'WN')): yield [t, 2, 6]
        for t in BASES: yield [t, 3, 3]

def std(k): return grammar.standardise_singleton_root(k._initialise())

class Alive:
    '''Expressions in use, each with what it must keep being'''
    def __init__(self): self.items = []
    def add(self, k, t = None): self.items.append((k, t or term(k), k.root)); return k
    def check(self, what):
        for k, t, root in self.items:
            now = term(k)
            require(now == t, lambda: f'{what} altered the expression {show(t)} into {show(now)}')
            if k.root is k: well_formed(k, f'(after {what})')
    def ids(self): return {i for k, _, _ in self.items for i in object_ids(k)}

def object_ids(k): return {i for n in nodes(k) for i in [id(n)] + ([id(n.base_terms), id(n.composite_terms)] if hasattr(n, 'base_terms') else [])}

def operations(k, t, alive, structural_only = False):
    '''(name, thunk giving a list of (result, wanted term or None), results are independent rooted trees)'''
    for p, node in enumerate(k.traverse()):
        for pt in PARTNERS:
            def rep(node = node, pt = pt):
                r = alive.add(build(pt))
                return [(grammar.standardise_singleton_root(node.new_tree_with_self_replaced(r).root), None)]
            yield f'replacing node {p} by {show(pt)}', rep, True
    for pt in PARTNERS:
        yield f'sum with {show(pt)}', lambda pt = pt: [(alive2(alive, pt, lambda r: std(SumKE([], [k, r]))), nf(('+', (t, pt))))], True
        yield f'product with {show(pt)}', lambda pt = pt: [(alive2(alive, pt, lambda r: std(ProductKE([], [r, k]))), nf(('*', (t, pt))))], True
        for o in ('CP', 'CW'): yield f'{o} with {show(pt)}', lambda pt = pt, o = o: [(alive2(alive, pt, lambda r: std(ChangeKE(o, k, r))), nf((o, t, pt)))], True
    yield 'product with itself', lambda: [(std(ProductKE([], [k, k])), nf(('*', (t, t))))], True
    yield 'change to itself', lambda: [(std(ChangeKE('CP', k, k)), nf(('CP', t, t)))], True
    yield 'deepcopy', lambda: [(deepcopy(k), t)], True
    yield 'pickle', lambda: [(pickle.loads(pickle.dumps(k)), t)], True
    if structural_only: return
    for p in range(len(nodes(k))):
        for news in GROWTH:
            if not isinstance(nodes(k)[p], ChangeKE): yield f'adding {" and ".join(map(show, news))} to node {p}', lambda p = p, news = news: [grown(k, p, news, alive)], True
    for name, f in grammar.non_grouped_prs.items(): yield f'expansion by {name}', lambda f = f: [(r, None) for r in grammar.expand(k, [f])], True
    for pt in PARTNERS:
        for f, o in ((ops.add, '+'), (ops.multiply, '*')):
            yield f'{f.__name__} with {show(pt)}', lambda f = f, pt = pt, o = o: operator_results(alive, pt, lambda r: f(k, r), nf((o, (t, pt)))), False
            yield f'{f.__name__} of {show(pt)} with it', lambda f = f, pt = pt, o = o: operator_results(alive, pt, lambda r: f(r, k), nf((o, (t, pt)))), False
            yield f'plain {f.__name__} with {show(pt)}', lambda f = f, pt = pt, o = o: operator_results(alive, pt, lambda r: [f(k, r, False)], nf((o, (t, pt)))), False
        yield f'both_changes with {show(pt)}', lambda pt = pt: operator_results(alive, pt, lambda r: ops.both_changes(k, r), None), False
        yield f'one_change with {show(pt)}', lambda pt = pt: operator_results(alive, pt, lambda r: ops.one_change(k, 'CW', r), None), False
    for b in BASES:
        for f in (ops.add, ops.multiply, ops.swap_base, ops.both_changes): yield f'{f.__name__} with {b}', lambda f = f, b = b: [(r, None) for r in f(k, b)], False
    for f in (ops.remove_a_term, ops.higher_curves, ops.both_changes): yield f.__name__, lambda f = f: [(r, None) for r in f(k)], False

GROWTH = [('PER',), ('LIN', 'SE'), (('+', ('LIN', 'PER')),), (('*', ('LIN', 'PER')), ('*', ('LIN', 'SE')), ('CP', 'LIN', 'PER')), (('+', (('*', ('LIN', 'PER')), ('*', ('LIN', 'SE')), 'WN')), ('*', (('+', ('LIN', 'PER')), ('+', ('LIN', 'SE')), ('CW', 'LIN', 'SE'))))]

def grown(k, p, news, alive):
    '''A copy of k whose node p has been given the new terms (in the single and in the list form), simplified; and the term it must have'''
    c = deepcopy(k)
    n = nodes(c)[p]
    def raw(m): # The term of the tree with the new terms in that node
        if isinstance(m, str): return m
        if isinstance(m, ChangeKE): return (m.CP_or_CW, raw(m.left), raw(m.right))
        return mk('+' if isinstance(m, SumKE) else '*', list(m.base_terms.elements()) + [raw(x) for x in m.composite_terms] + (list(news) if m is n else []))
    want = nf(raw(c))
    if isinstance(news[0], str): r = n.new_base(news[0] if len(news) == 1 else list(news))
    else:
        args = [alive.add(build(x)) for x in news]
        r = n.new_composite(args[0] if len(args) == 1 else args)
    require(r is n, lambda: f'adding terms to {show(term(k))} does not return the node added to')
    well_formed(c, f'{show(term(k))} with terms added'); well_formed(c.simplify(), f'{show(term(k))} with terms added and simplified')
    return std(c), want

def alive2(alive, pt, f): return f(alive.add(build(pt)))
def operator_results(alive, pt, f, want_first):
    r = f(alive.add(build(pt)))
    return [(x, want_first if i == 0 else None) for i, x in enumerate(r)]

def check(case):
    t0, depth, cap = T(case[0]), case[1], case[2]
    frontier, seen, trans = [(build(t0), t0)], {t0}, 0
    replaced_ref = lambda t, pt: sorted((nf(replaced(t, path, pt)) for path, _ in positions(t)), key = repr)
    for d in range(depth):
        nxt = []
        for k, t in frontier:
            alive = Alive(); alive.add(k)
            reps = {}
            for name, op, independent in operations(k, t, alive, structural_only = d > 0):
                before = alive.ids(); n_alive = len(alive.items)
                results = op(); trans += 1
                alive.check(name)
                for r, want in results:
                    if isinstance(r, str): continue
                    if independent:
                        got = is_normal(r, f'result of {name} on {show(t)}'); well_formed(r, f'result of {name} on {show(t)}')
                        shared = object_ids(r) & alive.ids()
                        require(not shared, lambda: f'the result {show(got)} of {name} on {show(t)} shares structure with its operands')
                        require(want is None or got == want, lambda: f'{name} on {show(t)} gives {show(got)} rather than {show(want)}')
                        if name.startswith('replacing'): reps.setdefault(name.split(' by ')[1], []).append(got)
                        if got not in seen:
                            seen.add(got)
                            if size(got) <= cap: nxt.append((r, got))
                    elif want is not None:
                        got = nf(term(r))
                        require(got == want, lambda: f'{name} on {show(t)} gives {show(got)} rather than {show(want)}')
                del alive.items[n_alive + 6:] # Keep the list of live expressions short
            for pt in PARTNERS:
                want = replaced_ref(t, pt); got = sorted(reps.get(show(pt), []), key = repr)
                require(got == want, lambda: f'replacing each node of {show(t)} by {show(pt)} gives {[show(x) for x in got]} rather than {[show(x) for x in want]}')
        frontier = nxt
    return dict(evaluations = trans, transitions = trans, traces = 1, distinct = [show(x) for x in seen])
