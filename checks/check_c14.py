"""C14: program and rule equality is exact up to renaming and reordering."""
import ref, conv, iso, terms
from common import *
from ref import V
from terms import rt
from dyna import Program, Rule, Term, Var
from collections import Counter

RULE = ('pairs of random rules/programs: shuffled+renamed copies, near-miss mutants (variables merged, split or swapped, an argument or a '
        'constant changed, a duplicate added or dropped, a subgoal moved between rules) and unrelated ones, with few predicates so that '
        'the commutative matching has to backtrack; equality, symmetry, hashes and alignments judged by an independent isomorphism test; '
        'non-trivial = same signature of predicates in both programs; distinct by pair')
CASES = (12000, 100000)
REQUIRED = {'rule_pairs': 8000, 'equal_rules': 2000, 'near_misses': 2000, 'program_pairs': 3500, 'equal_programs': 800, 'aligned': 5000}
ASSUMPTIONS = ['constants are equal when Python says so (1, 1.0 and true are the same constant)']


def rrule(rng, vs, preds):
    def atom():
        return (rng.choice(preds),) + tuple(rt(rng, vs, rng.choice([0, 0, 0, 1]), 0, .75) for _ in range(rng.choice([1, 2, 2, 3])))
    body = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 5])):
        u = rng.random()
        if u < .1: body.append(rng.choice([1.0, 2, 0.5, True]))
        elif u < .15: body.append(rng.choice(vs))
        elif u < .3 and body: body.append(rng.choice(body))
        else: body.append(atom())
    return atom() if rng.random() < .9 else ('h', *vs), body


def mut(rng, x, vs):
    if x.__class__ is V: return rng.choice(vs) if rng.random() < .5 else x
    if x.__class__ is tuple: return (x[0],) + tuple(mut(rng, a, vs) for a in x[1:])
    return x


def rename_occ(rng, x, old, new, p):
    if x is old: return new if rng.random() < p else x
    if x.__class__ is tuple: return (x[0],) + tuple(rename_occ(rng, a, old, new, p) for a in x[1:])
    return x


def mutant(rng, r):
    h, b = r
    b = list(b)
    vs = list(ref.variables([h] + b))
    u = rng.random()
    if vs and u < .25:          # merge two variables
        a, c = rng.choice(vs), rng.choice(vs)
        return rename_occ(rng, h, a, c, 1), [rename_occ(rng, y, a, c, 1) for y in b]
    if vs and u < .5:           # split one variable / redirect one occurrence
        a = rng.choice(vs); c = rng.choice(vs + [V()])
        return rename_occ(rng, h, a, c, .4), [rename_occ(rng, y, a, c, .4) for y in b]
    if b and u < .6:            # swap arguments
        i = rng.randrange(len(b))
        if b[i].__class__ is tuple and len(b[i]) > 2:
            y = list(b[i]); j, k = rng.sample(range(1, len(y)), 2); y[j], y[k] = y[k], y[j]
            b[i] = tuple(y)
        return h, b
    if b and u < .7: return h, b + [rng.choice(b)]
    if b and u < .8: b.pop(rng.randrange(len(b))); return h, b
    if vs and u < .9 and len(vs) > 1:   # swap two variables in one subgoal only
        a, c = rng.sample(vs, 2)
        i = rng.randrange(len(b) + 1)
        m = {a: c, c: a}
        sw = lambda y: ref.apply(m, y)
        return (sw(h), b) if i == len(b) else (h, b[:i] + [sw(b[i])] + b[i+1:])
    if b:
        i = rng.randrange(len(b)); b[i] = terms.mutate(rng, b[i], vs or [V()])
    return h, b


def copyr(rng, r):
    h, b = r
    m = {}
    h2, b2 = ref.rename(h, m), [ref.rename(y, m) for y in b]
    rng.shuffle(b2)
    return h2, b2


def run_case(ctx):
    rng = ctx.rng
    preds = ['p', 'q'][:rng.choice([1, 2])]
    def vs(): return [V(c) for c in rng.sample('XYZUW', rng.choice([1, 2, 3, 4]))]
    P = [rrule(rng, vs(), preds) for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < .4: P.append(copyr(rng, rng.choice(P)))
    if rng.random() < .3: P.append(mutant(rng, copyr(rng, rng.choice(P))))
    kind = rng.choice(['copy', 'mutant', 'mutant', 'move', 'dup', 'other'])
    Q = [copyr(rng, r) for r in P]
    rng.shuffle(Q)
    if kind == 'mutant':
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(Q)); Q[i] = mutant(rng, Q[i])
    elif kind == 'move' and len(Q) > 1:
        i, j = rng.sample(range(len(Q)), 2)
        (h1, b1), (h2, b2) = Q[i], Q[j]
        Q[i], Q[j] = (h1, b2), (h2, b1)
    elif kind == 'dup' and len(Q) > 1:
        i, j = rng.sample(range(len(Q)), 2)
        Q[i] = copyr(rng, Q[j])
    elif kind == 'other':
        Q = [rrule(rng, vs(), preds) for _ in range(len(P))]
    if rng.random() < .1: Q = Q[:-1] if rng.random() < .5 else Q + [copyr(rng, rng.choice(Q or P))]

    share = {}            # sometimes the two sides share variable objects
    def lives(R, shared):
        out = []
        for h, b in R:
            m = share if shared and rng.random() < .3 else {}
            out.append(Rule(terms.live(h, m), *[terms.live(y, m) for y in b]))
        return out
    lp, lq = lives(P, False), lives(Q, False)
    if rng.random() < .15:  # exactly the same variable objects
        m = {}
        i = rng.randrange(len(P))
        perm = list(P[i][1]); rng.shuffle(perm)
        a = Rule(terms.live(P[i][0], m), *[terms.live(y, m) for y in P[i][1]])
        mu = mutant(rng, P[i])
        c = Rule(terms.live(mu[0], m), *[terms.live(y, m) for y in mu[1]])
        want = iso.rule_iso(P[i], mu, iso.loose)
        ctx.check(a.same(c) == want, f'rules sharing variables: same({a}, {c}) is {a.same(c)}')
        ctx.event('shared_variables')
    live_p, live_q = Program(lp), Program(lq)
    before = (conv.from_program(live_p), conv.from_program(live_q), [list(map(id, r.fargs)) for r in (*live_p, *live_q)])
    txt = f'{source(P)}\n--\n{source(Q)}' if True else ''
    ctx.notes['pair'] = txt
    # rules
    for _ in range(3):
        i, j = rng.randrange(len(P)), rng.randrange(len(Q)) if Q else None
        if j is None: break
        if rng.random() < .7:
            c = [k for k in range(len(Q)) if Q[k][0][0] == P[i][0][0] and len(Q[k][1]) == len(P[i][1])]
            if c: j = rng.choice(c)
        want = iso.rule_iso(P[i], Q[j], iso.loose)
        got, rev = lp[i].same(lq[j]), lq[j].same(lp[i])
        ctx.check(got == want, f'same({lp[i]}, {lq[j]}) is {got}', pair=txt)
        ctx.check(rev == want, f'same is not symmetric: same({lq[j]}, {lp[i]}) is {rev}', pair=txt)
        if want:
            ctx.check(lp[i]._hash_cache == lq[j]._hash_cache if hasattr(lp[i], '_hash_cache') else True, f'equal rules hash differently: {lp[i]} / {lq[j]}')
            ctx.event('equal_rules')
        elif kind != 'other': ctx.event('near_misses')
        ctx.event('rule_pairs')
    # programs
    want = iso.program_iso(P, Q, iso.loose)
    got, rev = (live_p == live_q), (live_q == live_p)
    ctx.check(bool(got) == want, f'program equality is {got}, should be {want}:\n{txt}')
    ctx.check(bool(rev) == want, f'program equality is not symmetric:\n{txt}')
    ctx.event('program_pairs')
    if want:
        ctx.check(hash(live_p) == hash(live_q), f'equal programs hash differently:\n{txt}')
        ctx.event('equal_programs')
    if Counter((h[0], len(b)) for h, b in P) == Counter((h[0], len(b)) for h, b in Q): ctx.nontrivial(txt)
    # alignment
    al = live_p.align(live_q)
    li = [i for i, j in al if i is not None]; lj = [j for i, j in al if j is not None]
    ctx.check(sorted(li) == list(range(len(P))) and sorted(lj) == list(range(len(Q))), f'alignment {al} does not mention every rule once:\n{txt}')
    n = 0
    for i, j in al:
        if i is not None and j is not None:
            n += 1
            ctx.check(iso.rule_iso(P[i], Q[j], iso.loose), f'alignment pairs different rules {i} and {j}:\n{txt}')
            ctx.event('aligned')
    best, rest = 0, list(Q)
    for r in P:
        for k, s in enumerate(rest):
            if iso.rule_iso(r, s, iso.loose): del rest[k]; best += 1; break
    ctx.check(n == best, f'alignment pairs {n} rules, {best} are possible:\n{txt}')
    # nothing changed
    after = (conv.from_program(live_p), conv.from_program(live_q), [list(map(id, r.fargs)) for r in (*live_p, *live_q)])
    ctx.check(before[2] == after[2] and all(iso.rule_iso(a, b) for x, y in zip(before[:2], after[:2]) for a, b in zip(x, y)),
              f'comparing changed its arguments:\n{txt}')
    ctx.sample(txt.split('\n'))
