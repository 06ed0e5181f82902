"""C37: symbolic evaluation with the inputs left open commutes with supplying the data."""
import ref, gen, conv, xform, foldwork
from common import *
from dyna import Program, Rule, Term
from check_c19 import prog as prog19

RULE = ('random programs (non-recursive to the fixpoint, recursive for k steps; comparisons, arithmetic and unification that must be delayed, structured terms, several semirings) run by fc / step '
        'over charts whose inputs stay symbolic, with and without simplification between steps; single backward-chaining steps on random query patterns (user_lookup); instantiation against the '
        'solved chart and against the symbolic chart; each result is combined with random data, evaluated by the reference evaluator and compared with the program (or its k-step unrolling) '
        'on that data. Distinct by program, mode and parameters')
CASES = (9000, 40000)
REQUIRED = {'dbs': 1800, 'nonempty_dbs': 1500, 'fixpoint': 250, 'steps': 150, 'lookup': 250, 'instantiate': 150, 'delayed_builtin': 60}
ASSUMPTIONS = ['reference evaluator']
WALL = (60, 700)


def shapes(rng):
    X, Y, Z, W = [V(n) for n in 'XYZW']
    k = rng.choice([.1, .2, 2]); c = rng.choice([1, 2])
    S = [
        [(('p', X), [('u0', X), ('<', X, 3)]), (('q', X), [('p', X), ('p', Y), ('<', X, Y)]), (('g',), [('q', X)])],
        [(('p', X, Z), [('u0', X), ('u1', X, Y), ('is', Z, ('+', X, 1))]), (('g', Z), [('p', X, Z), ('u0', Z)])],
        [(('p', X, Y), [('u1', X, Y), ('=', X, c)]), (('q', Y), [('p', X, Y), ('!=', X, Y)]), (('g',), [('q', X), ('q', Y)])],
        [(('p', X), [('u0', X)]), (('p', X), [('u1', X, Y), k]), (('q', X), [('p', X), ('p', X)]), (('g', X), [('q', X), ('p', c)])],
        [(('f', ('s', X)), [('u0', X)]), (('f', X), [('u0', X)]), (('g', X), [('f', ('s', X))]), (('h',), [('f', X), ('f', ('s', Y))])],
        [(('p', X, X), [('u0', X)]), (('p', X, Y), [('u1', X, Y)]), (('g', X), [('p', X, Y), ('p', Y, X)]), (('h', X), [('p', c, X)])],
        [(('p', X), [('p', X), ('u0', X), .1]), (('p', X), [('u0', X)]), (('g',), [('p', X), ('u0', X)])],
        [(('p', X, Z), [('p', X, Y), ('u1', Y, Z), .2]), (('p', X, Y), [('u1', X, Y)]), (('g', X), [('p', c, X)])],
        [(('p', X), [('=', X, c)]), (('p', X), [('u0', X), ('!=', X, c)]), (('g', X), [('p', X), ('u1', X, Y)])],
        [(('g', X), [('u0', X), ('u1', X, Y), ('is', Z, ('*', X, Y)), ('<', Z, 5)])],
    ]
    rules = list(rng.choice(S))
    if rng.random() < .25: rules.append(rng.choice(rules))
    rng.shuffle(rules)
    heads = {(h[0], len(h) - 1) for h, b in rules}
    edb = {(y[0], len(y) - 1) for h, b in rules for y in b if y.__class__ is tuple and not ref.is_builtin(y)} - heads
    tags = ('shape',) + (('varfactor',) if any(y.__class__ is V for h, b in rules for y in b) else ())
    return gen.Prog(rules, edb, [sorted(heads)[-1]], [1, 2, 3, 4][:rng.randint(2, 4)], gen.w_small, tags)


def unroll(rules, heads, k):
    "the k-th naive iterate as a program: items of stage i use stage i-1; stage 0 is empty"
    at = lambda y, i: (f'{y[0]}@{i}',) + y[1:]
    own = lambda y: y.__class__ is tuple and not ref.is_builtin(y) and (y[0], len(y) - 1) in heads
    out = []
    for i in range(1, k + 1):
        for h, b in rules:
            out.append((at(h, i), [at(y, i - 1) if own(y) else y for y in b]))
    return out + [(t, [at(t, k)]) for t in (gen.sig_term(f, n) for f, n in sorted(heads))]


def mentions_builtin(rules):
    return any(y.__class__ is tuple and ref.is_builtin(y) for h, b in rules for y in b)


def run_case(ctx):
    rng = ctx.rng
    u = rng.random()
    if u < .4: p = shapes(rng)
    elif u < .6: p = prog19(rng)
    else: p = gen.datalog(rng, nonground=rng.random() < .2, builtins=rng.random() < .4, functions=rng.random() < .25, maxarity=2, n_idb=rng.randint(1, 3), max_body=3,
                          recursive=rng.random() < .3)
    if len(p.rules) > 6: ctx.skip('large')
    if 'varfactor' in p.tags or not p.rules: ctx.skip('variable factor')       # a free variable factor is a query for every item
    srn = 'Float' if 'varfactor' in p.tags or mentions_builtin(p.rules) and rng.random() < .5 else rng.choice(['Float', 'Float', 'Boolean', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    P = xform.live(p, rng=rng, semiring=srn)
    heads = {(h[0], len(h) - 1) for h, b in p.rules}
    if heads & set(p.edb): ctx.skip('input with rules')
    lift = lambda f: lift_rules(f, srn)
    rec = gen.is_recursive(p.rules)
    mode = rng.choice(['fixpoint', 'fixpoint', 'lookup', 'instantiate', 'instantiate_symbolic'] if not rec else ['steps', 'steps', 'lookup', 'instantiate'])
    if mode == 'fixpoint' and rng.random() < .2: mode = 'steps'
    conf = {'mode': mode}
    ctx.notes.update(program=src, semiring=srn, config=conf)
    tag = lambda y, f='$ans': (f, y)
    sink = []

    def symbolic():
        chart = Program([], inputs=P.inputs, outputs=Program([]), semiring=P.Semiring)
        simp = rng.choice([None, None, 'constant_folding'])
        conf['simplify'] = simp
        proj = (lambda q: q) if simp is None else (lambda q: q.constant_folding())
        return chart, proj

    if mode in ('fixpoint', 'steps', 'instantiate_symbolic'):
        chart, proj = symbolic()
        if mode == 'steps':
            k = rng.choice([1, 2, 2, 3])
            conf['k'] = k
            if rng.random() < .5:
                C = chart
                for _ in range(k):
                    C = proj(P.step(C))
                    if len(C) > 150: ctx.skip('large')
            else:
                C = P.fc(max_iter=k, chart=chart, proj=proj)
            want = unroll(before, heads, k)
        else:
            C = P.fc(chart=chart, proj=proj, max_iter=12)
            want = before
        if len(C) > 150: ctx.skip('large')
        if mode == 'instantiate_symbolic':
            # no two items of the chart may overlap, or a rule is instantiated more than once
            hs = [h for h, b in foldwork.plain(C)]
            if any(ref.unifiable(ref.rename(x, {}), ref.rename(y, {})) for i, x in enumerate(hs) for y in hs[:i]): ctx.skip('overlapping chart')
            after = foldwork.plain(P.instantiate(C))
            ctx.event('instantiate')
        else:
            after = foldwork.plain(C)
            own = {(y[0], len(y) - 1) for h, b in after for y in b if y.__class__ is tuple} & heads
            ctx.check(not own, 'the symbolic result still mentions derived items', result=ref.show_program(after))
            ctx.event(mode)
        if mentions_builtin(after): ctx.event('delayed_builtin')
        n = xform.meaning(ctx, want, after, p, sr, heads, f'symbolic evaluation ({mode})', ndb=3, lift=lift, max_iter=80, slow=70, drop_builtin_free=False)
    elif mode == 'lookup':
        h = rng.choice(sorted(heads))
        pats = [x[0] for x in p.rules if (x[0][0], len(x[0]) - 1) == h] + [gen.sig_term(*h)]
        q = ref.rename(rng.choice(pats), {})
        q = (q[0],) + tuple(rng.choice([a, a, rng.choice(p.dom or [1]), V('Q')]) for a in q[1:])
        conf['query'] = ref.show(q)
        L = P.user_lookup(ref.show(q) if rng.random() < .5 else conv.to_term(q, {}))
        rs = foldwork.plain(L)
        for hh, b in rs: ctx.check(ref.unifiable(ref.rename(hh, {}), q) and ref.covers(q, hh), 'a result does not match the query', query=ref.show(q), result=ref.show(hh))
        after = before + [(tag(hh), b) for hh, b in rs]
        want = before + [(tag(q), [q])]
        ctx.event('lookup')
        n = xform.meaning(ctx, want, after, p, sr, {('$ans', 1)}, 'user_lookup', ndb=3, lift=lift, max_iter=80, slow=70)
    else:
        facts = p.facts(rng)
        facts = lift(nonneg(facts) if srn != 'Float' else facts)
        facts = list({ref.show(h): (h, b) for h, b in facts}.values())
        try: full = ref.evaluate(before + facts, sr, max_iter=80, info=(info := {}))
        except (RefLimit, RefInst): ctx.skip('reference')
        if xform.bad_values(full) or info['iters'] > 40: ctx.skip('values')
        ks = list(full)
        if any(ref.variables(x) for x in ks): ctx.skip('nonground chart')
        if any(not set(ref.variables(hh)) <= set(ref.variables(b)) for hh, b in before): ctx.skip('not range-restricted')
        Q = conv.to_program(facts) if srn == 'Float' else conv.to_program(facts).lift_semiring(conv.SR[srn])
        D = P + Q
        D = Program(list(D.rules), semiring=P.Semiring)
        chart = D.agenda()
        G = D.instantiate(chart)
        rules = foldwork.plain(G)
        for hh, b in rules: ctx.check(not ref.variables(hh), 'instantiated head is not ground', rule=ref.show_rule((hh, b)))
        got = xform.evaluate(rules, sr, max_iter=500)
        bad = ref.compare(xform.restrict(got, heads | set(p.edb)), xform.restrict(full, heads | set(p.edb)), sr, 1e-5)
        ctx.check(not bad, 'the instantiated program gives other values', program=src, chart=ref.show_chart(full), agenda=str(chart)[:500], diffs=str(bad)[:600], instantiated=ref.show_program(rules), data=ref.show_program(facts))
        # every rule instance once
        ctx.event('instantiate'); ctx.event('dbs'); ctx.event('nonempty_dbs', bool(full)); ctx.event('instances', len(rules))
        n = 1
    if n: ctx.nontrivial((src, str(sorted(conf.items()))))
    ctx.sample({'program': src.split('\n'), 'config': conf})
