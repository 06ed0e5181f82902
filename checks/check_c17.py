"""C17: unfolding preserves the meaning of a program."""
import ref, gen, conv, xform, iso
from common import *
from dyna import Program, Rule, Term
from dyna.exceptions import InstFault

RULE = ('random programs (recursive, mutually recursive, self-joins, heads with constants / repeated / unused variables, non-ground facts, structured '
        'terms, equalities, comparisons, arithmetic, several semirings), 1-4 random unfold steps (any rule, any inlinable subgoal, '
        'also built-ins and self-unfolds), or unfold_x of one predicate with pruning, evaluated by the reference evaluator on random data before and after; '
        'the replaced rule is gone, all others are kept. Distinct by program and step sequence')
CASES = (2200, 60000)
REQUIRED = {'dbs': 2300, 'nonempty_dbs': 1900, 'unfolds': 1800, 'lost_variable': 30}
ASSUMPTIONS = ['reference evaluator']
WALL = (60, 700)


def extra_rules(rng, p):
    "heads and calls that stress resolution: constants against variables, repeated variables, unused head variables, equalities"
    X, Y, Z, U, W = [V(n) for n in 'XYZUW']
    dom = p.dom or [1, 2]
    (f, n) = rng.choice(sorted(p.edb))
    a = lambda *vs: (f,) + tuple(vs[i] if i < len(vs) else rng.choice(list(vs)) for i in range(n))
    k = rng.choice(dom)
    return rng.choice([
        [(('h', X, X), [a(X)]), (('h', X, k), [a(X, Y)]), (('g', X, Y), [('h', X, Y)]), (('g', Y, X), [('h', X, Y), ('h', Y, X)])],
        [(('h', X, Y), [a(X)]), (('g', X), [a(X), ('h', X, Y)]), (('g', X), [('h', X, X)])],                           # unused head variable
        [(('h', ('s', X)), [a(X)]), (('h', k), [2]), (('g', X), [('h', ('s', X))]), (('g', Y), [('h', X), ('=', X, ('s', Y))])],
        [(('h', X, Y), [a(X), ('=', Y, ('s', X))]), (('g', Y), [('h', X, Y)]), (('g', X), [('h', X, ('s', k))])],
        [(('h', X), [a(X, Y), ('!=', X, k)]), (('g', X), [('h', X), ('h', X)]), (('g', X), [('h', X), ('h', Y)])],
        [(('h', X), [a(X, Y), a(Y, X)]), (('h', X), [a(X, X), .5]), (('g', X, Y), [('h', X), ('h', Y), ('h', X)])],
        [(('h', X, Z), [a(X), a(Z)]), (('h', X, X), [a(X), 2]), (('g', X), [('h', X, W), a(W), ('h', W, X)])],
        [(('h', X, Y, Z), [a(X)]), (('g', X), [('h', X, Y, Z), a(Z)]), (('g',), [('h', X, X, Y)]), (('g', X), [('h', Y, Z, X), a(X)])],
        [(('h', k), []), (('h', X), [a(X)]), (('g', ('s', X)), [('h', X), 2, ('h', X)])],
    ])


def run_case(ctx):
    rng = ctx.rng
    nong = rng.random() < .3
    u = rng.random()
    if u < .25: p = rng.choice(gen.FAMILIES)(rng)
    else: p = gen.datalog(rng, nonground=nong, builtins=rng.random() < .35, functions=rng.random() < .25)
    if u > .6:
        ex = extra_rules(rng, p)
        if rng.random() < .5: p.rules = ex
        else: p.rules = p.rules + ex
    srn = pick_semiring(rng, p)
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    sigs = xform.functors(before)
    src = source(p.rules)
    mode = 'x' if rng.random() < .12 else 'steps'
    P = xform.live(p, rng=rng, semiring=srn)
    steps = []
    ctx.notes.update(program=src, semiring=srn, steps=steps)
    Q = P
    if mode == 'steps':
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if len(Q) > 40: break
            opts = [(i, j) for i, r in enumerate(Q.rules) for j, y in enumerate(r.body) if Q.safe_inline(y)]
            if not opts: break
            i, j = rng.choice(opts)
            try:
                N = Q.unfold(i, j)
            except InstFault:
                ctx.event('instfault'); continue
            steps.append((i, j))
            ctx.event('unfolds')
            # all other rules are kept, exactly one copy of rule i is gone
            was = conv.from_program(Q); now = conv.from_program(N)
            k = len(was) - 1
            ctx.check(iso.program_iso(was[:i] + was[i+1:], now[:k], iso.loose), f'unfold({i},{j}) changed other rules', program=source(was), after=source(now))
            if any('inf' in repr([conv.raw(y) for y in b if y.__class__ not in (tuple, V)]) for h, b in now[k:]): ctx.event('lost_variable')
            ctx.event('new_rules', len(now) - k)
            Q = N
    else:
        hs = sorted({(h[0], len(h) - 1) for h, b in before if h.__class__ is tuple} - set(p.outputs))
        if not hs: ctx.skip('nothing to unfold')
        f, n = rng.choice(hs)
        # unfold_x does not terminate on recursive predicates
        g = {}
        for h, b in before:
            for y in b:
                if y.__class__ is tuple: g.setdefault((h[0], len(h) - 1), set()).add((y[0], len(y) - 1))
        seen, st = set(), [(f, n)]
        while st:
            x = st.pop()
            for y in g.get(x, ()):
                if y not in seen: seen.add(y); st.append(y)
        if (f, n) in seen: ctx.skip('recursive')
        x = conv.to_term(gen.sig_term(f, n), {})
        Q = P.unfold_x(x)
        steps.append(('unfold_x', f, n)); ctx.event('unfold_x')
        ctx.check(not any((getattr(y, 'fn', None), getattr(y, 'arity', None)) == (f, n) for r in Q for y in r.body), f'unfold_x left a {f}/{n} subgoal', program=src)
        sigs = set(p.outputs)
    if not steps: ctx.skip('no inlinable subgoal')
    after = [(h, [conv.raw(y) for y in b]) for h, b in conv.from_program(Q)]
    n = xform.meaning(ctx, before, after, p, sr, sigs, f'unfold {steps}', ndb=3, lift=lambda f: lift_rules(f, srn), max_iter=80)
    if n: ctx.nontrivial((src, tuple(map(tuple, steps)), srn)); ctx.sample({'program': src.split('\n')[:8], 'steps': steps, 'semiring': srn})
