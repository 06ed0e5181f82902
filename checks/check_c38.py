"""C38: clause measures bound the size of the original derivation."""
import warnings
import z3
import ref, gen, conv, xform, foldwork
from common import *
from ref import V
from dyna import Program, Derivation, fresh
from check_c31 import enumerate_ref, tree_of, norm_tree, show_tree, size, Many
from check_c32 import distinct, norm_rules

RULE = ('random programs with their data as rules (recursive, self-joins, several derivations per item, a few built-ins) and chains of one to four safe unfold / fold steps (own rules, '
        'rules of earlier programs of the chain, several rules at once); every derivation of bounded height is mapped through the chain; at each program of the chain the interval computed '
        'from the clause measures is compared with the real number of rule applications (unit measure) and with random weights per original rule (symbolic measure) of the original '
        'derivation; the same measure is asked for an equal program with its rules in another order and other variable names; the lower bound used for untouched subgoals is compared with the '
        'real size of their derivations. Distinct by program and chain')
CASES = (1200, 24000)
REQUIRED = {'unit': 9000, 'weighted': 9000, 'unfold': 600, 'fold': 60, 'chains': 200, 'wide': 150, 'reordered': 250, 'subgoals': 4000, 'builtin_subgoals': 20}
ASSUMPTIONS = ['reference enumeration of derivations', 'the derivation mappings checked by C32 relate the derivations']
WALL = (60, 700)


def shared(rng):
    "rules that are the distribution of another item's rules over common subgoals"
    X, Y = [V(n) for n in 'XY']
    pool = [('u0', X, Y), ('u0', Y, X), ('u1', X), ('u1', Y), ('u2', X, X), rng.choice([.5, 2.0]), ('e',)]
    defs, used = [], []
    for _ in range(rng.choice([2, 2, 3])):
        b = [('u1', X)] + rng.sample(pool, rng.randint(0, 2))
        if b in used: continue
        used.append(b); defs.append((('m', X), b))
    rules = list(defs)
    for n in range(rng.choice([1, 2])):
        left, right = rng.sample(pool, rng.randint(0, 1)), rng.sample(pool, rng.randint(0, 2))
        for _, b in defs: rules.append((('p%d' % n, X), left + b + right))
    rules.append((('g',), [('m', X), ('p0', X)]))
    if rng.random() < .5: rules.append((('e',), [2.0])); rules.append((('e',), [('u1', X)]))
    if rng.random() < .3: rules.append((('u1', X), [('u0', X, Y), .2, ('u2', Y, Y)]))
    rng.shuffle(rules)
    heads = {(h[0], len(h) - 1) for h, b in rules}
    edb = {('u0', 2), ('u1', 1), ('u2', 2)}
    if ('e', 0) not in heads: edb.add(('e', 0))
    return gen.Prog(rules, edb, [('g', 0)], gen.domain(rng), gen.w_small, ('shared',))


def uses(t, acc):
    if t[0] not in ('const', 'builtin'):
        acc[t[0]] = acc.get(t[0], 0) + 1
        for k in t[2]: uses(k, acc)
    return acc


def number(x, subs):
    if isinstance(x, z3.ExprRef):
        x = z3.simplify(z3.substitute(x, *subs))
        return x.as_long()
    return x


def grow(ctx, rng, Q, chain, kind):
    how = kind if kind != 'mixed' else rng.choice(['unfold', 'fold'])
    if how == 'unfold':
        defs = Q if rng.random() < .6 else rng.choice(chain)
        opts = [(i, j) for i, r in enumerate(Q.rules) for j, y in enumerate(r.body) if not Q.is_const(y) and not Q.is_builtin(y)]
        if not opts: return None, None
        i, j = rng.choice(opts)
        N = Q.unfold(i, j, defs=defs) if defs is not Q else Q.unfold(i, j)
        return N, f'unfold({i},{j},defs={[k for k, c in enumerate(chain) if c is defs][0]})'
    defs = rng.choice(chain)
    opts = list(Q.megafolds(defs)) if len(Q) <= 14 else []
    if not opts: return None, None
    wide = [o for o in opts if len(o.S) > 1]
    N = rng.choice(wide if wide and rng.random() < .6 else opts)
    return N, f'fold(S={sorted(N.S)},i={N.i},j={N.j},defs={[k for k, c in enumerate(chain) if c is defs][0]})'


def run_case(ctx):
    rng = ctx.rng
    warnings.simplefilter('ignore')
    if rng.random() < .25: p = shared(rng)
    elif rng.random() < .6:
        p = foldwork.prog(rng)
        if rng.random() < .5: foldwork.distribute(rng, p)
    else: p = gen.datalog(rng, functions=rng.random() < .2, maxarity=2, n_idb=rng.randint(2, 3), recursive=rng.random() < .3, builtins=rng.random() < .3)
    facts = p.facts(rng); rng.shuffle(facts)
    facts = facts[:rng.choice([3, 5, 7])]
    rules = p.rules + list({h: (h, b) for h, b in facts}.values())
    seen = {}
    for h, b in rules: seen.setdefault(ref.show_rule((h, b)), (h, b))
    rules = list(seen.values())
    if any(not set(ref.variables(h)) <= set(ref.variables(b)) for h, b in rules): ctx.skip('not range-restricted')
    src = source(rules)
    P = conv.to_program(rules)
    if not distinct(P): ctx.skip('equal rules')
    T = rng.choice([3, 4])
    chain, steps = [P], []
    ctx.notes.update(program=src, steps=steps)
    kind = rng.choice(['unfold', 'fold', 'fold', 'mixed', 'mixed'])
    for _ in range(rng.choice([1, 2, 3, 4])):
        N, label = grow(ctx, rng, chain[-1], chain, kind)
        if N is None: continue
        if not distinct(N) or len(N) > 30: break
        if not N.safe_by_unit: continue
        steps.append(label)
        ctx.event(label.split('(')[0])
        chain.append(N)
    if len(chain) < 2: ctx.skip('no step')
    if len(chain) > 2: ctx.event('chains')
    RR = [norm_rules(conv.from_program(Q)) for Q in chain]
    try: want, finite = enumerate_ref(RR[0], T)
    except (Many, RefLimit): ctx.skip('too many derivations')
    if not want or sum(size(t) for ts in want.values() for t in ts) > 700: ctx.skip('too many derivations')
    cur = [(tree_of(ctx, d, P, RR[0]), d) for d in P.derivations(T, 'X')]
    cur = [(t, d) for t, d in cur if t[0] not in ('const', 'builtin')]
    M1, M2 = P.unit_measure, P.measure
    weights = [rng.choice([1, 2, 3, 7, 20]) for _ in P]
    ctx.notes['weights'] = weights
    basis = M2(P)
    subs = [(basis.m[i].lo, z3.IntVal(w)) for i, w in enumerate(weights)]
    ctx.check(len({str(x) for x, _ in subs}) == len(P), 'two original rules share a measure')
    original = {}
    for t, d in cur:
        u = uses(t, {})
        original[id(d)] = (t, sum(u.values()), sum(weights[i] * n for i, n in u.items()))
    rows = [(original[id(d)], d) for t, d in cur]

    for k, N in enumerate(chain):
        if k: rows = [(o, N.transform(d)) for o, d in rows]
        ctx.notes['at'] = k
        m1, m2 = N.unit_measure(N), N.measure(N)
        ctx.check(m1.is_safe() and m2.is_safe(), 'a safe step is not safe when asked again')
        ints = [(number(x.lo, subs), number(x.hi, subs)) for x in m2.m]
        ctx.check(all(a <= b for a, b in ints) and all(x.lo <= x.hi for x in m1.m), 'an empty interval', measure=str(m1.m), weighted=ints)
        for (t, n, w), e in rows:
            iv = m1.derivation_measure(e)
            info = dict(original=show_tree(t), image=str(e), measure=str(m1.m), weighted=str(ints), rules=ref.show_program(RR[k]))
            ctx.check(iv.lo <= n <= iv.hi, f'{n} rule applications, outside of [{iv.lo}, {iv.hi}]', **info)
            ctx.event('unit')
            lo, hi = weigh(e, ints)
            ctx.event('wide', lo < hi)
            ctx.check(lo <= w <= hi, f'weighted size {w}, outside of [{lo}, {hi}]', **info)
            ctx.event('weighted')
        # an equal program: other rule order, other names
        order = list(range(len(N)))
        rng.shuffle(order)
        E = Program([fresh(N.rules[i]) for i in order], inputs=N.inputs, outputs=N.outputs)
        for m, M in [(m1, N.unit_measure), (m2, N.measure)]:
            q = M(E)
            ctx.check(len(q.m) == len(m.m) and all(same(q.m[a], m.m[i]) for a, i in enumerate(order)), 'the measure of an equal program in another order is not aligned',
                      order=order, measure=str(m.m), aligned=str(q.m), rules=ref.show_program(RR[k]))
            ctx.event('reordered', order != sorted(order))
    # the lower bound on untouched subgoals
    sizes = {}
    for ts in want.values():
        for t in ts: walk(t, sizes)
    for i, r in enumerate(P.rules):
        nodes = sizes.get(i, [])
        for t in nodes[:20]:
            js = sorted(rng.sample(range(len(r.body)), rng.randint(0, len(r.body))))
            lo = M1.min_size(tuple(r.body[j] for j in js))
            real = sum(size(t[2][j]) for j in js)
            ctx.check(lo <= real, f'min_size says at least {lo}, this derivation of the subgoals has size {real}', rule=ref.show_rule(RR[0][i]), subgoals=js, derivation=show_tree(t))
            ctx.event('subgoals'); ctx.event('builtin_subgoals', any(t[2][j][0] == 'builtin' for j in js))
    ctx.nontrivial((src, tuple(steps)))
    ctx.sample({'program': src.split('\n'), 'steps': steps, 'derivations': len(rows), 'weights': weights})


def weigh(e, ints):
    if isinstance(e, (tuple, list)):
        xs = [weigh(y, ints) for y in e]
        return sum(x[0] for x in xs), sum(x[1] for x in xs)
    if Derivation.base(e): return 0, 0
    lo, hi = weigh(list(e.body), ints)
    return ints[e.i][0] + lo, ints[e.i][1] + hi


def walk(t, sizes):
    if t[0] in ('const', 'builtin'): return
    sizes.setdefault(t[0], []).append(t)
    for k in t[2]: walk(k, sizes)


def same(a, b): return all(x is y or (x.eq(y) if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) else (not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y)) for x, y in [(a.lo, b.lo), (a.hi, b.hi)])
