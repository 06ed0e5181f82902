"""C10: term order is a strict total order on ground terms; sorting is order-independent."""
import itertools
import ref
from ref import V
from common import *
from terms import *
from dyna import Program, Rule, Term
from dyna.term import lt as live_lt, canonicalize

RULE = ('random sets of 3-7 ground terms/rules mixing strings, ints, floats, booleans, nested terms of different functors and '
        'arities, prefixes of one another, some behind chains of bound variables; all ordered pairs and triples checked for '
        'irreflexivity, asymmetry, totality, transitivity; every sorted() of shuffled copies must agree; programs sorted from '
        'shuffled rule lists must print the same; distinct by the set')
CASES = (18000, 150000)
REQUIRED = {'pairs': 150000, 'triples': 600000, 'sorts': 12000}
ASSUMPTIONS = ['numeric constants without NaN; equal constants (1, 1.0, True) count as equal']
WALL = (60, 600)
C = [0, 1, 2, -1, 'x', 'y', 'a', 'b', 'aa', '', 'f', 0.5, 1.0, True, False, 1.5, ('a',), ('b',), ('f',)]


def rg(rng, d):
    if d == 0 or rng.random() < .35: return rng.choice(C)
    return (rng.choice(['f', 'g', 'a', 'F']),) + tuple(rg(rng, d-1) for _ in range(rng.randint(0, 3)))


def run_case(ctx):
    rng = ctx.rng
    xs = [rg(rng, rng.randint(0, 3)) for _ in range(rng.randint(2, 5))]
    for _ in range(rng.randint(1, 3)):
        b = rng.choice(xs)
        if b.__class__ is tuple and rng.random() < .5: xs.append(b + (rng.choice(C),) if rng.random() < .5 else b[:max(1, len(b)-1)])
        else: xs.append(mutate_g(rng, b))
    as_rules = rng.random() < .25
    terms_only = not as_rules
    chains = rng.random() < .2
    mk = (lambda t: live_bound(rng, t, {}, .15)) if chains else (lambda t: live(t, {}))
    if as_rules:
        rows = [(h if h.__class__ is tuple else ('f', h), [b if b.__class__ is tuple or isinstance(b, (int, float)) else ('g', b) for b in rng.sample(xs, rng.randint(0, 2))]) for h in xs]
        ls = [Rule(mk(h), *map(mk, b)) for h, b in rows]
        es = [('@r', enc(h)) + tuple(map(enc, b)) for h, b in rows]
    else:
        ls = [mk(t) for t in xs]
        es = [enc(t) for t in xs]
    n = len(ls)
    ctx.notes.update(terms=[repr(e) for e in es])
    L = {}
    for i in range(n):
        for j in range(n):
            L[i, j] = bool(live_lt(ls[i], ls[j]))
            if isinstance(ls[i], Term): ctx.check((ls[i] < ls[j]) == L[i, j], f'x < y differs from lt(x, y): {es[i]!r} {es[j]!r}')
            ctx.event('pairs')
    for i in range(n):
        ctx.check(not L[i, i], f'{es[i]!r} < itself')
        for j in range(n):
            if i == j: continue
            e = ref.ident(es[i], es[j])
            k = L[i, j] + L[j, i]
            if e: ctx.check(k == 0, f'equal terms are ordered: {es[i]!r} {es[j]!r}')
            else: ctx.check(k == 1, f'order is not total/antisymmetric on {es[i]!r} and {es[j]!r}: {L[i, j]}, {L[j, i]}')
    for i, j, k in itertools.permutations(range(n), 3):
        ctx.event('triples')
        if L[i, j] and L[j, k]:
            ctx.check(L[i, k], f'not transitive: {es[i]!r} < {es[j]!r} < {es[k]!r}')
    if all(isinstance(t, Term) for t in ls):
        base = None
        for _ in range(4):
            p = ls[:]
            rng.shuffle(p)
            out = [back(t, {}) for t in sorted(p)]
            ctx.event('sorts')
            if base is None: base = out
            ctx.check(len(out) == len(base) and all(ref.ident(a, b) for a, b in zip(out, base)), f'sorting depends on the initial order: {base!r} vs {out!r}')
    if as_rules:
        base = None
        for _ in range(3):
            p = ls[:]
            rng.shuffle(p)
            out = [back(r, {}) for r in Program(p).sort()]
            if base is None: base = out
            ctx.check(all(ref.ident(a, b) for a, b in zip(out, base)), f'Program.sort depends on the rule order: {base!r} vs {out!r}')
            ctx.event('sorts')
    ctx.nontrivial(tuple(map(repr, es)))
    ctx.sample({'terms': ctx.notes['terms']})


def mutate_g(rng, x):
    if x.__class__ is tuple and len(x) > 1 and rng.random() < .8:
        i = rng.randrange(1, len(x))
        return x[:i] + (mutate_g(rng, x[i]),) + x[i+1:]
    return rg(rng, 1)
