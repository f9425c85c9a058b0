from collections import Counter
from mc.bridge import *
from mc import rules
from GPy_ABCD.KernelExpansion import grammar
import GPy_ABCD.config as config

LEVEL = 'model_checking'
RULE = 'one case = one expression x all production rules, the set of simplified results compared with the reference rewrites at every position; distinct non-trivial = different (rule, expression) pairs with at least one rewrite'
def bounds(tier): return 'all 12 production rules on all normal forms with <= 3 leaves over 5 base kernels, and with 4 leaves over ' + ('3 base kernels (3 choices)' if tier == 'thorough' else '2 base kernels (2 choices)') + f', and {thin_bounds(tier)}'
ALPHABETS = dict(quick = [('LIN', 'C'), ('PER', 'WN')], thorough = [('LIN', 'C', 'SE'), ('PER', 'WN', 'LIN'), ('SE', 'C', 'WN')])

def cases(tier):
    ts = dict.fromkeys(normal_terms(3))
    for a in ALPHABETS[tier]: ts.update(dict.fromkeys(normal_terms(4, a)))
    ts.update(dict.fromkeys(thin_terms(*THIN[tier])))
    return [[t] for t in sorted(ts, key = size)]

def rule_table(): return {n: f for d in grammar.production_rules_by_type.values() for n, f in d.items()}

def check(case):
    t = T(case[0]); k = build(t); n = 0; distinct = []
    table = rules.rules(config.__dict__['__INCLUDE_SE_KERNEL'])
    impl = rule_table()
    require(set(impl) == set(table), lambda: f'production rules are {sorted(impl)}')
    for name, f in impl.items():
        got = [is_normal(r, f'{name} result') for r in grammar.expand(k, [f])]
        want = rules.expand_ref(t, [name], table)
        n += len(got)
        diff(name, t, got, want)
        if want: distinct.append((name, show(t)))
    require(root_term(k) == t, lambda: f'expanding altered {show(t)} into {show(root_term(k))}')
    return dict(evaluations = n, distinct = distinct)

def diff(name, t, got, want):
    missing, extra, twice = want - set(got), set(got) - want, [x for x, c in Counter(got).items() if c > 1]
    require(not (missing or extra or twice), lambda: f'{name} on {show(t)}: ' + '; '.join(f'{w} {[show(x) for x in sorted(l, key = size)[:4]]}' for w, l in (('missing', missing), ('unwarranted', extra), ('duplicate', twice)) if l))
