'''GPy_ABCD.Util.genericUtil against definitions, on all small arguments.'''
import itertools, operator
from mc.driver import fail, require
from GPy_ABCD.Util import genericUtil as gu

LEVEL = 'model_checking'
RULE = 'all lists up to the length over an alphabet of values which only support equality (three classes of mutually equal, distinguishable objects), passed as list, tuple and one-shot iterator where iterables are accepted; all predicates on the classes; all directed graphs up to the size with nodes listed in every order; a state is an argument, a transition one call of a helper; results are compared with definitions written independently, element for element (by identity), and arguments with what they were'
def bounds(tier): return dict(quick = 'lists of <= 5 elements (<= 3 and <= 4 for two-list functions), 3 equality classes (one of falsy values), 10 predicates, 5 x 8 fold step functions; graphs of <= 4 nodes (all 65536 edge sets with self-loops for 4); intervals with ends on a grid of 8 values incl. infinities',
    thorough = 'as quick, lists of <= 7 (two-list: <= 5)')[tier]

COUNT = [0] # Argument states visited
class E: # Supports equality only; equal elements are distinguishable by identity
    __hash__ = None
    def __init__(self, c, i): self.c, self.i = c, i
    def __eq__(self, o): return isinstance(o, E) and self.c == o.c
    def __bool__(self): return self.c != 0 # One of the classes is falsy
    def __repr__(self): return f'{"abc"[self.c]}{self.i}'

def lists(n): # All lists of exactly n elements; equal elements numbered by occurrence
    for cs in itertools.product(range(3), repeat = n): yield [E(c, i) for i, c in enumerate(cs)]
def same(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))
PREDS = [lambda e, s = s: e.c in s for s in ((), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2))] + [lambda e: e.c, lambda e: [e.i] * e.i] # The last two return other truthy and falsy values

def cases(tier):
    N, M = (5, 3) if tier == 'quick' else (7, 4)
    for n in range(N + 1): yield ['one', n]
    for a in range(M + 2):
        for b in range(M + 2): yield ['two', a, b]
    for n in range(5):
        for part in range(1 if n < 4 else 64): yield ['graph', n, part]
    for n in range(5 if tier == 'quick' else 6):
        for g in range(5): yield ['foldq', n, g]
    yield ['nested', 4]
    yield ['dicts', 0]
    yield ['intervals', 0]
    yield ['on', 0]

class Count(dict):
    def __call__(self, k): self[k] = self.get(k, 0) + 1; return True

def check(case):
    COUNT[0] = 0
    n = globals()['do_' + case[0]](*case[1:])
    return dict(evaluations = n, states = COUNT[0], distinct = [repr(case)], sample = f'{case}: {n} calls')

def forms(xs): yield 'list', list(xs); yield 'tuple', tuple(xs); yield 'iterator', iter(list(xs)); yield 'generator', (x for x in list(xs))

def do_one(n):
    calls = 0
    for xs in lists(n):
        snap = list(xs)
        COUNT[0] += 1
        for how, arg in forms(xs):
            for i, p in enumerate(PREDS):
                a = arg if how in ('list', 'tuple') else iter(snap)
                t, f = gu.partition(p, a); calls += 1
                require(same(list(t), [x for x in snap if p(x)]) and same(list(f), [x for x in snap if not p(x)]), lambda: f'partition of {snap} ({how}) by predicate {i} gives {t}, {f}')
                a = arg if how in ('list', 'tuple') else iter(snap)
                d = object(); r = gu.first(p, a, d); calls += 1
                want = [x for x in snap if p(x)]
                require(r is (want[0] if want else d), lambda: f'first of {snap} ({how}) by predicate {i} gives {r}')
                if how == 'iterator' and want: require(list(map(id, a)) == [id(x) for x in snap[[id(y) for y in snap].index(id(want[0])) + 1:]], lambda: f'first consumes elements of {snap} after the one it returns')
                require(gu.first(p, snap) is (want[0] if want else None), 'first without default')
            a = arg if how in ('list', 'tuple') else iter(snap)
            g = gu.group_by(lambda e: e.c, a); calls += 1
            require({k: [x.i for x in v] for k, v in g.items()} == {c: [x.i for x in snap if x.c == c] for c in sorted({x.c for x in snap})}, lambda: f'group_by of {snap} gives {dict(g)}')
            for key in (lambda e: e.i % 2, lambda e: None, lambda e: 0 if e.c else ''):
                g = gu.group_by(key, list(snap)); calls += 1
                ks = []
                for x in snap:
                    if key(x) not in ks: ks.append(key(x))
                require(list(g) == ks and all(same(g[k], [x for x in snap if key(x) == k]) for k in ks), lambda: f'group_by of {snap} gives {dict(g)}')
            a = arg if how in ('list', 'tuple') else iter(snap)
            u = gu.unique(a); calls += 1
            want = []
            for x in snap:
                if not any(x.c == y.c for y in want): want.append(x)
            require(same(u, want), lambda: f'unique of {snap} ({how}) gives {u}')
            hs = [x.c for x in snap]
            require(gu.unique_h(hs) == {*hs}, lambda: f'unique_h of {hs}'); calls += 1
        for k in range(1, n + 2):
            for form, typ in ((list(snap), list), (tuple(snap), tuple)):
                ch = list(gu.chunk(form, k)); calls += 1
                require(all(isinstance(c, typ) for c in ch) and same([x for c in ch for x in c], snap) and all(len(c) == k for c in ch[:-1]) and (not ch or 0 < len(ch[-1]) <= k), lambda: f'chunk of {snap} by {k} gives {ch}')
        for k in range(1, 4): # unzip undoes zip
            rows = [tuple(E(0, 10 * i + j) for j in range(k)) for i in range(n)]
            for name, got in (('unzip', gu.unzip(rows)), ('unzip_lazy', list(gu.unzip_lazy(rows))), ('unzip of iterator', gu.unzip(iter(rows))), ('unzip of lists', gu.unzip([list(r) for r in rows]))):
                calls += 1
                require(all(isinstance(c, list) for c in got) and len(got) == (k if n else 0) and all(same(got[j], [r[j] for r in rows]) for j in range(len(got))), lambda: f'{name} of {rows} gives {got}')
        require(same(xs, snap), lambda: f'a list function altered its argument {snap} into {xs}')
    return calls

def do_two(n, m):
    calls = 0
    for xs in lists(n):
        for ys in lists(m):
            sx, sy = list(xs), list(ys)
            COUNT[0] += 1
            cx, cy = [[v.c for v in l] for l in (xs, ys)]
            for (hx, ax), (hy, ay) in zip(forms(xs), list(forms(ys))[1:] + list(forms(ys))[:1]):
                r = gu.eq_elems(ax, ay); calls += 1
                require(bool(r) is (sorted(cx) == sorted(cy)), lambda: f'eq_elems({sx}, {sy}) ({hx}, {hy}) is {r}')
            for (hx, ax), (hy, ay) in zip(forms(xs), list(forms(ys))[1:] + list(forms(ys))[:1]):
                r = gu.diff(ax, ay); calls += 1
                left = list(sx) # One (the first) equal element is removed per element of ys
                for y in sy:
                    for i, x in enumerate(left):
                        if x.c == y.c: del left[i]; break
                require(same(r, left), lambda: f'diff({sx}, {sy}) ({hx}, {hy}) is {r} rather than {left}')
            require(same(xs, sx) and same(ys, sy), lambda: f'eq_elems or diff altered their arguments {sx}, {sy}')
            require(gu.diff_h(cx, cy) == {c for c in cx if c not in cy}, lambda: f'diff_h({cx}, {cy})')
            require(gu.eq_elems_h(cx, cy) == ({*cx} == {*cy}), lambda: f'eq_elems_h({cx}, {cy})'); calls += 2
    return calls

def do_nested(n):
    calls = 0
    for lens in itertools.product(range(4), repeat = n):
        for k in range(n + 1):
            ls = [[E(0, 10 * i + j) for j in range(l)] for i, l in enumerate(lens[:k])]
            snap = [list(l) for l in ls]
            COUNT[0] += 1
            want = []
            for l in snap:
                for x in l: want.append(x)
            for arg in (ls, tuple(ls), iter(ls), [tuple(l) for l in ls], (iter(l) for l in ls)):
                r = gu.flatten(arg); calls += 1
                require(isinstance(r, list) and same(r, want), lambda: f'flatten of {snap} gives {r}')
            require(len(ls) == len(snap) and all(same(a, b) for a, b in zip(ls, snap)), lambda: f'flatten altered {snap}')
            inner = [[[E(0, 1)], []], [[]]]
            require(gu.flatten(inner) == [[E(0, 1)], [], []], 'flatten flattens more than one level'); calls += 1
    return calls

def do_graph(n, part):
    calls = 0
    edges = [(i, j) for i in range(n) for j in range(n)]
    for mask in range(part, 2 ** len(edges), 64 if n == 4 else 1):
        if n == 4 and bin(mask).count('1') > 9: continue # More than 9 of 16 edges: cyclic in any case (6 make a full order), a few suffice
        into = {j: [i for i, j2 in edges if j2 == j and mask >> edges.index((i, j2)) & 1] for j in range(n)}
        done, rest = [], list(range(n)) # Acyclic?
        while True:
            nxt = [x for x in rest if not [d for d in into[x] if d not in done]]
            if not nxt: break
            done += nxt; rest = [x for x in rest if x not in nxt]
        orders = itertools.permutations(range(n)) if n < 4 else [range(n), range(n - 1, -1, -1), (2, 0, 3, 1)]
        for order in orders:
            COUNT[0] += 1; arg = [(j, list(into[j])) for j in order]; snap = [(j, list(d)) for j, d in arg]
            for a in (arg, tuple(arg), iter(list(arg))):
                calls += 1
                try: r = gu.topological_sort(a)
                except ValueError: require(rest, lambda: f'topological_sort fails on the acyclic {snap}'); continue
                require(not rest, lambda: f'topological_sort of the cyclic {snap} gives {r}')
                require(sorted(r) == list(range(n)) and all(r.index(d) < r.index(j) for j, ds in snap for d in ds), lambda: f'topological_sort of {snap} gives {r}')
            require(arg == snap, lambda: f'topological_sort altered its argument {snap}')
    if n == 3 and part == 0: # Dependencies listed twice; nodes which only support equality
        a, b, c = E(0, 0), E(1, 1), E(2, 2)
        require(same(gu.topological_sort([(c, [b, b, a]), (b, [E(0, 5)]), (a, [])]), [a, b, c]), 'topological_sort with repeated dependencies'); calls += 1
    return calls

def ref_foldq(f, g, c, xs, acc):
    xs = list(xs)
    while True:
        i = next((i for i, x in enumerate(xs) if c(x)), None)
        if i is None: return acc, xs
        x, others = xs[i], xs[:i] + xs[i + 1:]
        old = acc; acc = f(old, x); xs = g(old, x, others)

def do_foldq(n, which):
    # Elements are numbers; step functions change, drop, add and reverse what remains, possibly depending on the accumulator
    gs = [lambda a, x, xs: xs, lambda a, x, xs: [y - 1 for y in xs], lambda a, x, xs: [y for y in xs if y != x], lambda a, x, xs: xs[::-1], lambda a, x, xs: [y + (len(a) % 2) for y in xs] + ([x - 1] if x > 1 and len(a) < 3 else [])]
    cs = [lambda x: True, lambda x: False, lambda x: x == 0, lambda x: x > 0, lambda x: x % 2 == 0, lambda x: x < 0, lambda x: x <= 1, lambda x: x != 1]
    g, calls = gs[which], 0
    for xs in itertools.product((-1, 0, 1, 2), repeat = n):
        for ci, c in enumerate(cs):
            COUNT[0] += 1
            want = ref_foldq(lambda a, x: a + [x], g, c, xs, [])
            for arg in (list(xs), tuple(xs)):
                acc0 = []; got = gu.foldq(lambda a, x: a + [x], g, c, arg, acc0); calls += 1
                require(got[0] == want[0] and list(got[1]) == want[1] and not acc0 and tuple(arg) == xs, lambda: f'foldq over {xs} with condition {ci}, update {which} gives {got} rather than {want}')
                try: r = gu.foldq_(lambda a, x: a + [x], g, c, arg, acc0)
                except ValueError: r = None; require(want[1], lambda: f'foldq_ fails over {xs} with condition {ci}, update {which}, which leaves nothing')
                else: require(not want[1] and r == want[0], lambda: f'foldq_ over {xs} with condition {ci}, update {which} gives {r} rather than {want}')
            s = gu.foldq(lambda a, x: 2 * a + x, lambda a, x, r: r, lambda x: True, list(xs), 1); calls += 2
            tot = 1
            for x in xs: tot = 2 * tot + x
            require(s[0] == tot and not s[1], lambda: f'foldq with the trivial condition over {xs} is not a fold: {s}')
            falsy = gu.foldq(lambda a, x: 0, lambda a, x, r: g([1] * a, x, r), c, list(xs), 0) if which != 4 else gu.foldq(lambda a, x: 0, gs[1], c, list(xs), 0)
            require(falsy[0] == 0 and list(falsy[1]) == ref_foldq(lambda a, x: 0, lambda a, x, r: g([1] * a, x, r) if which != 4 else gs[1](a, x, r), c, xs, 0)[1], lambda: f'foldq over {xs} with a falsy accumulator gives {falsy}')
    return calls

def do_dicts(_):
    calls = 0
    subs = [dict(zip(ks, vs)) for r in range(4) for ks in itertools.combinations('abc', r) for vs in itertools.product((0, 2), repeat = r)] # 0: present though falsy
    for d0 in subs:
        for d1 in subs:
            COUNT[0] += 1
            for f, name in ((operator.add, 'add'), (lambda a, b: b, 'replace'), (lambda a, b: a, 'keep'), (lambda a, b: [a, b], 'pair')):
                a, b = dict(d0), dict(d1); r = gu.update_dict_with(a, b, f); calls += 1
                want = {k: f(d0[k], d1[k]) if k in d0 and k in d1 else d0[k] if k in d0 else d1[k] for k in {**d0, **d1}}
                require(dict(r) == want and r is a and b == d1, lambda: f'update_dict_with({d0}, {d1}, {name}) gives {r}, and second argument {b}')
            z = dict(gu.zip_maps(d0, d1)); calls += 1
            require(z == {k: (d0[k], d1[k]) for k in d0 if k in d1}, lambda: f'zip_maps({d0}, {d1}) gives {z}')
    for d0, d1, d2 in itertools.product(subs[::3], repeat = 3):
        zl = list(gu.zip_maps(d0, d1, d2)); calls += 1
        require(len(zl) == len({k for k, _ in zl}) and dict(zl) == {k: (d0[k], d1[k], d2[k]) for k in d0 if k in d1 and k in d2}, lambda: f'zip_maps({d0}, {d1}, {d2}) gives {zl}')
    for d in subs: require(dict(gu.zip_maps(d)) == {k: (v,) for k, v in d.items()}, lambda: f'zip_maps({d})'); calls += 1
    return calls

def do_intervals(_):
    inf, calls = float('inf'), 0
    vs = [-inf, -3., -1, 0, .5, 2, 7., inf]
    ivs = [(a, b) for a in vs for b in vs if a <= b and not (a == b and abs(a) == inf)]
    for a in ivs:
        for b in ivs:
            COUNT[0] += 1
            r = gu.interval_overlap(a, b); calls += 1
            lo, hi = sorted([a[0], b[0]])[1], sorted([a[1], b[1]])[0]
            want = hi - lo if hi > lo else 0
            require(r == want, lambda: f'interval_overlap({a}, {b}) = {r} rather than {want}')
            require(gu.interval_overlap(list(a), list(b)) == want, 'interval_overlap of lists')
    return calls

def do_on(_):
    calls = 0
    for xs in itertools.product(['', 'a', 'ab', 'bab'], repeat = 2):
        COUNT[0] += 1
        require(gu.on(operator.gt, xs, len) == (len(xs[0]) > len(xs[1])), lambda: f'on(gt, {xs}, len)')
        require(gu.on(lambda *a: a, xs, lambda x, y, z = 0: (x, y, z), 1, z = 2) == tuple((x, 1, 2) for x in xs), lambda: f'on with arguments')
        require(gu.on_m(lambda *a: a, iter(xs), 'count', 'a') == tuple(x.count('a') for x in xs), lambda: f'on_m(count, {xs})')
        require(gu.on_m(lambda *a: a, xs, 'encode', encoding = 'ascii') == tuple(x.encode() for x in xs), lambda: f'on_m(encode, {xs})')
        require(gu.on_a(operator.sub, [complex(len(x), 1) for x in xs], 'real') == len(xs[0]) - len(xs[1]), lambda: f'on_a')
        require(gu.fst(xs) is xs[0] and gu.snd(xs) is xs[1], 'fst, snd'); calls += 6
    return calls
