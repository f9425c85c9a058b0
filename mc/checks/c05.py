'''Expansion: breadth-first over expansion histories of the live start kernels, plus all ordered pairs of rules over all small expressions.'''
from mc.bridge import *
from mc import rules
from GPy_ABCD.KernelExpansion import grammar

LEVEL = 'model_checking'
RULE = 'breadth-first over expansion histories (states = canonical terms of the live expressions produced, transitions = expansions executed): each list of results is compared, as a set of terms, with the union of the reference rewrites, with the expansion of the same expression built afresh, and with a repeated expansion'
def bounds(tier): return dict(quick = 'all exported start kernels x the 4 exported rule groups, histories of 2 expansions of every result (3 for Minimal, of results with <= 3 leaves); all ordered pairs of the 12 rules, on all normal forms with <= 2 leaves; all groups forwards and backwards on all normal forms with <= 3 leaves over 3 base kernels',
    thorough = 'as quick, with 3 expansions of every result with <= 5 leaves, pairs of rules on all normal forms with <= 3 leaves over 3 base kernels, and groups on all normal forms with <= 3 leaves')[tier] + f'; groups on {thin_bounds(tier)}'
ASSUMPTIONS = ['an expression well-formed and equal to a freshly built one has the same further expansions (checked by also expanding the freshly built one)']
GROUPS = ['All', 'Original_ABCD', 'Minimal', 'Default']
STARTS = ['Default', 'Extended', 'Original_ABCD']
SPLIT = 12

def start_terms(): return sorted({root_term(k) for s in STARTS for k in grammar.start_kernels[s]}, key = repr)

def cases(tier):
    yield ['groups', None]
    for g in GROUPS:
        for t in start_terms():
            for i in range(SPLIT): yield ['history', g, t, i, tier]
    for t in (normal_terms(2) if tier == 'quick' else sorted({*normal_terms(2), *normal_terms(3, ('LIN', 'C', 'PER'))}, key = repr)): yield ['pairs', t]
    for t in (normal_terms(3, ('LIN', 'C', 'PER')) if tier == 'quick' else normal_terms(3)): yield ['orders', t]
    for t in thin_terms(*THIN[tier]):
        if size(t) > 3: yield ['orders', t]

def names_of(rs): return [next(n for n, f in grammar.non_grouped_prs.items() if f is r) for r in rs]
TABLE = rules.rules()

def expanded(k, t, rs, what, deep = True):
    '''Expand a live expression and check everything about the list of results -> [(result, term)]'''
    res = grammar.expand(k, rs)
    seen = {}
    for r in res:
        rt = is_normal(r, f'result of {what} on {show(t)}'); well_formed(r, f'result of {what} on {show(t)}')
        require(rt not in seen, lambda: f'{what} on {show(t)} gives {show(rt)} more than once')
        seen[rt] = r
    want = rules.expand_ref(t, names_of(rs), TABLE)
    require(set(seen) == want, lambda: f'{what} on {show(t)}: missing {sorted(map(show, want - set(seen)))[:5]}, extra {sorted(map(show, set(seen) - want))[:5]}')
    if deep:
        ids = set(map(id, nodes(k)))
        for r in res:
            own = set(map(id, nodes(r)))
            require(not own & ids, lambda: f'a result of {what} on {show(t)} shares nodes with it or with another result')
            ids |= own
    return list(zip(res, seen))

def terms_of(res): return sorted((repr(root_term(r)) for r in res))

def check(case):
    kind = case[0]
    if kind == 'groups': # The exported groups are what they are said to be
        base_pr = ['plus_base', 'times_base', 'replace_base']
        want = dict(All = sorted(TABLE), Original_ABCD = base_pr + ['change_same', 'change_window_constant', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'],
                    Minimal = base_pr + ['change_same'], Default = base_pr + ['change_point_linear', 'change_window_linear', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'])
        for g, w in want.items(): require(sorted(names_of(grammar.production_rules[g])) == sorted(w), f'rule group {g} is {names_of(grammar.production_rules[g])}')
        for s in STARTS:
            for k in grammar.start_kernels[s]: well_formed(k, f'start kernel of {s}'); is_normal(k, f'start kernel of {s}'); k.to_kernel()
        return dict(evaluations = 1)
    if kind == 'pairs':
        t = T(case[1]); n = 0; single = {}
        k = build(t); raw = term(k)
        for name, f in grammar.non_grouped_prs.items(): single[name] = {x for _, x in expanded(k, t, [f], name, False)}
        for n1, f1 in grammar.non_grouped_prs.items():
            for n2, f2 in grammar.non_grouped_prs.items():
                got = [root_term(r) for r in grammar.expand(k, [f1, f2])]; n += 1
                require(len(got) == len(set(got)), lambda: f'{n1} then {n2} on {show(t)} gives duplicates')
                require(set(got) == single[n1] | single[n2], lambda: f'{n1} and {n2} together on {show(t)} do not give the union of what they give alone')
                require(term(k) == raw, lambda: f'expanding by {n1}, {n2} altered {show(t)}')
        return dict(evaluations = n, transitions = n, distinct = [show(t)])
    if kind == 'orders':
        t = T(case[1]); n = 0; k = build(t); raw = term(k)
        for g in GROUPS:
            rs = grammar.production_rules[g]
            for rr in (list(rs), list(reversed(rs))):
                expanded(k, t, rr, f'rules {g}{" reversed" if rr != list(rs) else ""}', False); n += 1
                require(term(k) == raw, lambda: f'expanding by {g} altered {show(t)}')
        well_formed(k)
        return dict(evaluations = n, transitions = n, distinct = [show(t)])
    # Histories, from the live exported start kernels
    _, g, t0, part, tier = case; t0 = T(t0); rs = list(grammar.production_rules[g])
    k0 = next(k for s in STARTS for k in grammar.start_kernels[s] if root_term(k) == t0)
    before = [term(k) for s in STARTS for k in grammar.start_kernels[s]]
    first = sorted(expanded(k0, t0, rs, f'rules {g}'), key = lambda p: repr(p[1])); n = 1; reached = {t0}
    frontier = [p for i, p in enumerate(first) if i % SPLIT == part]
    cap, depth = (3, 2) if tier == 'quick' else (5, 3)
    for d in range(1, depth + 1 if g == 'Minimal' else depth):
        nxt = []
        for k, t in frontier:
            reached.add(t)
            raw = term(k); res = expanded(k, t, rs, f'rules {g} at depth {d}'); n += 1
            require(term(k) == raw, lambda: f'expanding altered {show(t)}'); well_formed(k)
            if d == 1:
                k.to_kernel()
                require(terms_of(grammar.expand(k, rs)) == sorted(repr(x) for _, x in res), lambda: f'expanding {show(t)} twice gives different results')
            fresh = grammar.expand(build(t), rs); n += 1
            require(terms_of(fresh) == sorted(repr(x) for _, x in res), lambda: f'{show(t)} as produced by expansion of {show(t0)} and as built expand differently')
            for r, rt in res:
                if rt not in reached:
                    reached.add(rt)
                    if size(rt) <= cap: nxt.append((r, rt))
        frontier = nxt
    require([term(k) for s in STARTS for k in grammar.start_kernels[s]] == before, 'expansion altered the exported start kernels')
    return dict(evaluations = n, transitions = n, distinct = [show(t) for t in reached])
