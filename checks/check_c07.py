"""C07: unification is correct and leaves no trace; joins and lookups built on it too."""
import gc
from collections import Counter
import ref, gen, conv
from common import *
from dyna import Term, Var, Program, Rule
from dyna.term import unify, snap, is_ground, term_vars, unifies, intersect, join_f

RULE = ('(a) random pairs of terms (shared and repeated variables, variable functors, occurs-check shapes, bindings already in '
        'effect) unified inside 0-3 enclosing unifications, the enumeration ending by exhaustion, break, close() or an exception; '
        '(b) random programs (facts, rules, variable heads, duplicate rules) queried by lookup, indexing, joins, groundings and '
        'both solvers, fully or abandoned half-way. Oracle: independent unifier; a shadow table of all variable cells checked at '
        'every suspension point and at the end. Distinct by term pair / program+query')
CASES = (72000, 500000)
REQUIRED = {'unify': 70000, 'success': 50000, 'abandoned': 28000, 'lookups': 19000, 'lookup_results': 20000, 'cells_checked': 900000}
ASSUMPTIONS = ['reference unifier']
WALL = (60, 600)


class Boom(Exception):
    pass


def enc(x):
    "encode functors as arguments so that variable functors are ordinary variables"
    if x.__class__ is tuple:
        return ('@',) + tuple(enc(a) for a in x)
    return x


def rt(rng, vs, depth=3, wild=.1):
    u = rng.random()
    if u < .35: return rng.choice(vs)
    if depth == 0 or u < .5:
        return rng.choice([0, 1, 'x', ('a',), ('b',), 2.5, 1.0, True])
    f = rng.choice(['f', 'g'])
    if rng.random() < wild: f = rng.choice(vs)
    return (f,) + tuple(rt(rng, vs, depth-1, wild) for _ in range(rng.randint(1, 3)))


def perturb(rng, x, vs):
    "a term that is likely to unify with x"
    u = rng.random()
    if u < .2: return rng.choice(vs)
    if x.__class__ is tuple and u < .95:
        return (x[0] if x[0].__class__ is not ref.V and rng.random() < .95 else rng.choice(vs + ['f']),) + tuple(perturb(rng, a, vs) for a in x[1:])
    return x


def lt(x, m):
    if x.__class__ is V: return m[x]
    if x.__class__ is tuple: return Term(*[lt(a, m) for a in x])
    return x


def back(x, inv):
    while isinstance(x, Var):
        if x.is_bound(): x = x.value
        else: return inv[id(x)]
    if isinstance(x, Term):
        return ('@',) + tuple(back(a, inv) for a in x.fargs)
    return x


def case_unify(ctx):
    rng = ctx.rng
    vs = [V(c) for c in 'XYZWUT'[:rng.randint(1, 6)]]
    m = {v: Var(v.name) for v in vs}
    inv = {id(m[v]): v for v in vs}
    rs = {}
    pairs = []
    wild = rng.choice([0, 0, .15])
    for _ in range(rng.randint(1, 4)):
        x = rt(rng, vs, rng.randint(1, 4), wild)
        y = perturb(rng, x, vs) if rng.random() < .7 else rt(rng, vs, 3, wild)
        if rng.random() < .5: x, y = y, x
        pairs.append((x, y))
    end = rng.choice(['exhaust', 'exhaust', 'break', 'close', 'throw', 'drop'])
    ctx.notes.update(pairs=[(repr(x), repr(y)) for x, y in pairs], end=end)
    state = {}

    def shadow():
        ctx.event('cells_checked', len(vs))
        return [m[v].value if m[v].is_bound() else None for v in vs]

    def view():
        return ref.canon(('t',) + tuple(back(m[v], inv) for v in vs))

    def go(i, s):
        if i == len(pairs):
            state['deep'] = True
            if end == 'throw': raise Boom()
            return
        x, y = pairs[i]
        t = ref.unify(enc(x), enc(y), s)
        before = shadow()
        lx, ly = lt(x, m), lt(y, m)
        n = 0
        ctx.event('unify')
        g = unify(lx, ly)
        for _ in g:
            n += 1
            ctx.event('success')
            ctx.check(t is not None, f'unify({x!r}, {y!r}) succeeded but the terms have no common instance under {s}')
            want = ref.canon(('t',) + tuple(ref.resolve(v, t) for v in vs))
            ctx.check(view() == want, f'unify({x!r}, {y!r}) bindings are not a most general unifier: {view()!r} vs {want!r}')
            ctx.check(lx == ly and ly == lx, f'unify({x!r}, {y!r}): terms not equal while unified')
            ctx.check(hash(lx) == hash(ly), f'unify({x!r}, {y!r}): hashes differ while unified')
            ctx.check(is_ground(lx) == ref.ground(ref.resolve(enc(x), t)), f'is_ground wrong under bindings: {x!r}')
            fv = {ref.resolve(inv[id(v)], t) for v in term_vars(lx)}
            ctx.check(fv == set(ref.variables(ref.resolve(enc(x), t))), f'term_vars wrong under bindings: {x!r}')
            go(i + 1, t)
            ctx.check(view() == want, f'inner unification disturbed the bindings of unify({x!r}, {y!r})')
            if end in ('break', 'close', 'drop'):
                ctx.event('abandoned')
                break
        if end == 'close': g.close()
        if end == 'drop': del g; gc.collect(0)
        else: g = None
        ctx.check(n == (t is not None) , f'unify({x!r}, {y!r}) yielded {n} times; unifiable: {t is not None}')
        after = shadow()
        ctx.check(all(a is b for a, b in zip(before, after)), f'unify({x!r}, {y!r}) left variables bound ({end}): {before} -> {after}')
    try:
        go(0, {})
    except Boom:
        ctx.event('thrown')
        gc.collect(0)
    after = shadow()
    ctx.check(all(a is None for a in after), f'variables left bound after {end}: {after}')
    x, y = pairs[0]
    lx, ly = lt(x, m), lt(y, m)
    t = ref.unify(enc(x), enc(y), {})
    ctx.check(unifies(lx, ly) == (t is not None), f'unifies({x!r},{y!r})')
    z = intersect(lx, ly)
    if t is None: ctx.check(z is None, f'intersect({x!r}, {y!r}) = {z!r} of disjoint terms')
    else:
        inv2 = {}
        def bk(q):
            q = snap(q)
            if isinstance(q, Var): return inv2.setdefault(q, V())
            return ('@',) + tuple(bk(a) for a in q.fargs) if isinstance(q, Term) else q
        ctx.check(ref.canon(bk(z)) == ref.canon(ref.resolve(enc(x), t)), f'intersect({x!r}, {y!r}) = {z!r}')
    ctx.check(all(a is None for a in shadow()), 'intersect/unifies left variables bound')
    if state.get('deep') and any(ref.variables(enc(x)) for x, _ in pairs):
        ctx.nontrivial(ref.canon(('p',) + tuple(enc(z) for xy in pairs for z in xy)) + (end,))
        ctx.sample({'pairs': ctx.notes['pairs'], 'end': end})


def unbound(ctx, objs, what):
    vs = set()
    def walk(x):
        if isinstance(x, Var): vs.add(id(x)); cells.append(x)
        elif isinstance(x, (Term, tuple)):
            for y in x: walk(y)
    cells = []
    for o in objs: walk(o)
    ctx.event('cells_checked', len(cells))
    bad = [v for v in cells if v.is_bound()]
    ctx.check(not bad, f'{what}: {len(bad)} variables left bound, e.g. {bad[0].name if bad else None} = {bad[0].value if bad else None}')


def case_lookup(ctx):
    rng = ctx.rng
    vs = [V(c) for c in 'XYZW']
    sigs = [('f', 1), ('f', 2), ('g', 2), ('h', 0)]
    def atom(vv, pv=.5):
        f, n = rng.choice(sigs)
        return (f,) + tuple(rng.choice(vv) if rng.random() < pv else rng.choice([0, 1, 'x', ('s', rng.choice(vv)), ('s', 0)]) for _ in range(n))
    rules = []
    for _ in range(rng.randint(1, 7)):
        if rng.random() < .06: h = rng.choice(vs)
        else: h = atom(vs, .4)
        k = rng.random()
        body = [rng.choice([1, 2, .5])] if k < .5 else [] if k < .6 else [atom(vs) for _ in range(rng.randint(1, 2))]
        rules.append((h, body))
    if rng.random() < .3: rules.append(rng.choice(rules))
    p = conv.to_program(rules)
    qs = [atom(vs, .6) for _ in range(rng.randint(1, 3))]
    if rng.random() < .08: qs[0] = rng.choice(vs)
    if rng.random() < .1: qs[0] = ('zzz', rng.choice(vs))       # functor unknown to the program
    m = {}
    lq = [conv.to_term(q, m) for q in qs]
    for _ in range(2):      # exercise index + rule cache reuse
        mode = rng.choice(['lookup', 'index', 'join', 'index', 'solver'])
        if mode == 'lookup': qn = 1
        else: qn = len(qs)
        ctx.notes.update(rules=source(rules), query=[ref.show(q) for q in qs[:qn]], mode=mode)

        def expected():
            out = Counter()
            def rec(i, s, acc):
                if i == qn:
                    out[ref.canon(ref.resolve(('r',) + tuple(qs[:qn]) + tuple(acc), s))] += 1
                    return
                for h, b in rules:
                    hb = ref.rename(('r', h, ('b',) + tuple(b)))
                    t = ref.unify(hb[1], qs[i], s)
                    if t is not None:
                        rec(i + 1, t, acc + [hb[2] if mode != 'lookup' else ('rule', hb[1], hb[2])])
            rec(0, {}, [])
            return out

        def stream():
            if mode == 'lookup': return iter(p.lookup(lq[0]))
            if mode == 'index': return iter(p[tuple(lq[:qn])] if qn > 1 else p[lq[0]])
            if mode == 'join': return join_f(lambda x: iter(p.lookup_vals(x)), *lq[:qn])
        if mode == 'solver':
            facts = [(h, b) for h, b in rules if all(y.__class__ not in (tuple, V) for y in b) and h.__class__ is tuple]
            if not facts: continue
            try:
                s = conv.to_program(facts).solver2()()
            except RecursionError:
                raise
            inc = ref.evaluate(facts)
            full = list(ref.query(inc, qs[0]).items()) if qs[0].__class__ is tuple else None
            if full is None: continue
            g = s.join(tuple(lq), 1)
            n = 0
            stop = rng.randint(1, 3)
            for v in g:
                n += 1
                unb = [x for x in s.chart]
                unbound(ctx, unb, 'solver chart during a join')
                if n == stop: ctx.event('abandoned'); break
            g = None
            unbound(ctx, lq + list(s.chart) + [r for r in s.program], 'after an abandoned solver join')
            ctx.event('lookups')
            continue
        want = expected()
        got = Counter()
        stop = rng.randint(1, 4) if rng.random() < .4 else None
        how = rng.choice(['break', 'throw', 'close'])
        n = 0
        g = stream()
        ctx.event('lookups')
        try:
            for r in g:
                n += 1
                ctx.event('lookup_results')
                mm = {}
                a = [conv.from_term(q, mm) for q in lq[:qn]]
                if mode == 'lookup':
                    b = [('rule', conv.from_term(r.head, mm), ('b',) + tuple(conv.from_term(y, mm) for y in r.body))]
                else:
                    # bodies are concatenated: compare as flat tuple
                    b = [conv.from_term(y, mm) for y in r]
                got[ref.canon(('r',) + tuple(a) + tuple(b))] += 1
                unbound(ctx, [x for x in p.rules], 'program rules during a lookup')
                if n == stop:
                    ctx.event('abandoned')
                    if how == 'throw': raise Boom()
                    break
        except Boom:
            gc.collect(0)
        if how == 'close' and hasattr(g, 'close'): g.close()
        g = None
        r = None
        unbound(ctx, lq + [x for x in p.rules], f'after {mode} ended by {how if stop else "exhaustion"}')
        if mode != 'lookup':
            flat = Counter()
            for k, c in want.items():
                flat[ref.canon(k[:1 + qn] + tuple(y for bb in k[1 + qn:] for y in bb[1:]))] += c
            want = flat
        if stop is None:
            ctx.check(got == want, f'{mode} {[ref.show(q) for q in qs[:qn]]}: results differ: missing {list((want - got).items())[:3]} extra {list((got - want).items())[:3]}', program=source(rules))
        else:
            ctx.check(not (got - want), f'{mode} {[ref.show(q) for q in qs[:qn]]}: unexpected result {list((got - want).items())[:3]}', program=source(rules))
        if got:
            ctx.nontrivial((source(rules), [ref.show(q) for q in qs[:qn]], mode, stop))


def run_case(ctx):
    if ctx.rng.random() < .55:
        for _ in range(3): case_unify(ctx)
    else: case_lookup(ctx)
