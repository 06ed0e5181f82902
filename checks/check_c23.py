"""C23: abbreviation preserves output values."""
import ref, gen, conv, xform
from common import *
from check_c22 import junk, patterns, matches
from dyna import Program

RULE = ('random programs (nonground rules, free heads, dropped local variables, constants / repeated variables / structure, recursion, built-ins, several semirings) with declared '
        'inputs; abbreviation by inferred types (semi-naive, generalizing, several depths), by usefulness types, and by user-declared input types with parameter relations '
        'and a rewrite theory; optionally pruned afterwards; evaluated by the reference evaluator on random ground data that satisfy the input types. With possible types '
        'every original item is compared, with useful types or after pruning the outputs. Distinct by program, types and options')
CASES = (2300, 26000)
REQUIRED = {'dbs': 1600, 'nonempty_dbs': 1400, 'abbreviated': 900, 'user_types': 100, 'useful': 70, 'pruned': 200, 'free_types': 150}
ASSUMPTIONS = ['reference evaluator', 'ground data that satisfy the input types; parameter relations of the input types hold with value one', 'inputs are not defined by rules']
WALL = (60, 700)
CASE_LIMIT = (12, 30)


def shape(rng):
    X, Y, Z, U = [V(n) for n in 'XYZU']
    c = rng.choice([1, 2, ('a',)]); k = rng.choice([.2, .5])
    shapes = [
        [(('f', c), [2]), (('f', X), [3]), (('goal',), [('f', X), ('u0', Y)]), (('g', X), [k, ('f', X)])],
        [(('a', X, X), [1]), (('a', c, Y), [1]), (('a', X, Y), [('u0', Y)]), (('a', X, Y), [.5, ('a', X, Y)]), (('g', X, Y), [('a', X, Y)])],
        [(('p', X, X), [1]), (('p', X, Z), [('p', X, Y), ('u0', Y, Z), k]), (('g',), [('u1', X), ('p', X, Y), ('u1', Y)])],
        [(('a', X, Z), [('u0', X, Y), ('u1', Y, Z)]), (('g',), [('a', X, X)]), (('g',), [('dead', X)])],
        [(('b', ('$cons', X, ('$cons', Y, Z))), [('u0', X, Y), ('b', ('$cons', Y, Z))]), (('b', ('$cons', X, ('$nil',))), [('u1', X)]), (('g',), [('v', X), ('b', ('$cons', X, Y))]), (('v', X), [('u1', X)])],
        [(('f', X, Y), [('u0', X)]), (('g', X), [('f', X, Y)]), (('h', X), [('f', X, c)]), (('h', X), [('f', Y, X), ('u0', X)])],
        [(('f', X, Y, X), [('u0', Y)]), (('g', Y), [('f', X, Y, Z), ('u0', Z)]), (('h', Z), [('f', X, Y, Z)])],
        [(('f', X), [1]), (('h', X, Y), [('f', X), ('f', Y)]), (('g', X), [('h', X, X)]), (('g', c), [('h', c, X), ('u0', X)])],
        [(('f', ('s', X)), [('f', X), k, ('u0', X)]), (('f', c), [1]), (('g', X), [('f', X)])],
        [(('f', X), [('=', X, ('t', Y, Y)), ('u0', Y)]), (('f', X), [('=', X, ('t', Y, Z))]), (('g', X), [('f', ('t', X, c))])],
        [(('f', X), [('u0', X), ('!=', X, c)]), (('f', c), [2]), (('g', X), [('f', X), ('f', Y)]), (('h', X, Y), [('f', X)])],
    ]
    rules = list(rng.choice(shapes))
    if rng.random() < .3: rules.pop(rng.randrange(len(rules)))
    rng.shuffle(rules)
    heads = {(h[0], len(h) - 1) for h, b in rules}
    edb = {(y[0], len(y) - 1) for h, b in rules for y in b if y.__class__ is tuple and not ref.is_builtin(y)} - heads
    edb = {s for s in edb if s[0][0] == 'u'}
    dom = gen.domain(rng)
    if c not in dom: dom = dom[:3] + [c]
    return gen.Prog(rules, edb, [h for h in sorted(heads) if h[0] in ('g', 'goal', 'h')] or [sorted(heads)[0]], dom, gen.w_small, ('shape',))


def known(ctx):
    """The listed finding: usefulness types describe the demanded items; a base rule with a free variable
    derives p(V,V), the only useful type is p(V0,V1) with both arguments bound, and the rule is dropped."""
    X, Y, Z = V('X'), V('Y'), V('Z')
    rules = [(('g',), [('u1', X), ('p', X, Y), ('u1', Y)]), (('p', X, Z), [('p', X, Y), ('u0', Y, Z)]), (('p', X, X), [2])]
    P = conv.to_program(rules, inputs='u0(X,Y). u1(X).', outputs='g.')
    after = conv.from_program(P.abbreviate(types=P.usefulness_analysis()))
    facts = [(('u1', 1), [3]), (('u0', 1, 1), [.5])]
    a, b = ref.evaluate(rules + facts)[('g',)], ref.evaluate(after + facts, ref.Real).get(('g',))
    ctx.check(abs(a - 36) < 1e-6, 'reference value')
    ctx.event('known_witness')
    ctx.check(b is not None and abs(a - b) < 1e-6, f'abbreviation by usefulness types loses the nonground rule p(X,X) += 2: goal is {b}, want {a}',
              key='useful-types-nonground-base' if b is None else None)


def run_case(ctx):
    rng = ctx.rng
    if ctx.case == 0: return known(ctx)
    u = rng.random()
    if u < .15: p = rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_list, gen.fam_evenodd, gen.fam_chain])(rng)
    elif u < .4: p = shape(rng)
    else:
        p = gen.datalog(rng, nonground=rng.random() < .5, functions=rng.random() < .3, builtins=rng.random() < .15, maxarity=2, n_idb=rng.randint(1, 3))
        if rng.random() < .12: gen.add_varfactor(rng, p)
    if rng.random() < .3: junk(rng, p)
    if len(p.rules) > 8: ctx.skip('large')
    heads = {(h[0], len(h) - 1) for h, b in p.rules}
    if p.edb & heads: ctx.skip('derived inputs')
    srn = 'Float' if 'varfactor' in p.tags else rng.choice(['Float', 'Float', 'Boolean', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    mode = rng.choice(['possible', 'possible', 'general', 'user', 'user', 'useful', 'depth'])
    # (useful types describe demanded items: they cover the derived items only if those are ground)
    if mode == 'useful' and any(not set(ref.variables(h)) <= set(ref.variables(b)) for h, b in p.rules): mode = 'possible'
    if not p.edb and mode == 'user': mode = 'possible'
    ins = [q for s in sorted(p.edb) for q in patterns(rng, p, s, None, .2 if not p.edb_domains and mode != 'user' else 0)]
    outs = [gen.sig_term(*s) for s in p.outputs]
    it, ot = '\n'.join(ref.show(q) + '.' for q in ins), '\n'.join(ref.show(q) + '.' for q in outs)
    P = conv.to_program(p.rules, inputs=it, outputs=ot)
    if srn != 'Float': P = P.lift_semiring(conv.SR[srn])
    steps = [mode]
    user = ''
    ctx.notes.update(program=src, inputs=it, outputs=ot, mode=mode, semiring=srn)

    types = {}         # functor -> {position: parameter relation}
    theory = ''
    inside = {}        # parameter relation -> its members
    if mode == 'user':
        names = ['k', 'w']
        pool = list(p.dom) or [0]
        if p.edb_domains: mode = 'possible'
        else:
            for nme in names: inside[nme] = [d for d in pool if rng.random() < .7]
            if rng.random() < .3:
                inside['w'] = [d for d in pool if d not in inside['k']]
                theory = '$fail :- k(X), w(X).'
            lines = []
            for f, n in sorted(p.edb):
                types[f, n] = {i: rng.choice(names) for i in range(n) if rng.random() < .7}
                t = gen.sig_term(f, n)
                lines.append(ref.show_rule((t, [(types[f, n].get(i, '$bound'), t[i + 1]) for i in range(n)])))
            user = '\n'.join(lines)
            steps.append(user); steps.append(theory)
            ctx.notes.update(types=user, theory=theory)
            T = P.type_analysis(input_type=Program(user, inputs='k(_). w(_). $bound(_).'), rewrites=theory)
    if mode == 'possible': T = P.type_analysis()
    elif mode == 'general': T = P.type_analysis(basic=False)
    elif mode == 'depth': T = P.type_analysis(max_depth=rng.choice([1, 2, 3]), basic=rng.random() < .5)
    elif mode == 'useful': T = P.usefulness_analysis()
    if not T.is_disjoint(): ctx.event('overlapping_types'); ctx.skip('types overlap')
    ctx.event({'user': 'user_types'}.get(mode, mode))
    if len(T.chart) > 25: ctx.skip('many types')
    if any(y.fn == '$free' for t in T.chart for y in t.body): ctx.event('free_types')
    A = P.abbreviate(types=T)
    ctx.event('abbreviated')
    if len(A) > 80: ctx.skip('many rules')
    after = conv.from_program(A)
    lift = lambda f: lift_rules(f, srn)

    def facts_of(rng):
        facts = [f for f in p.facts(rng) if matches(ins, f[0])]
        for q in ins:
            if not p.edb_domains and rng.random() < .5:
                pool = list(p.dom) + [('s', d) for d in p.dom[:2]] + [('new',)]
                if 'varfactor' in p.tags: pool = [d for d in pool if isinstance(d, int)]
                for _ in range(2):
                    t = ref.apply({v: rng.choice(pool) for v in ref.variables(q)}, q)
                    facts.append((t, [p.weights(rng)]))
        if types:
            facts = [(h, b) for h, b in facts if all(any(ref.ident(h[i + 1], d) for d in inside[r]) for i, r in types.get((h[0], len(h) - 1), {}).items())]
            facts += [((r, d), [1]) for r in inside for d in dict.fromkeys(inside[r])]
        return facts

    sigs = xform.functors(before) - p.edb
    kw = dict(facts_of=facts_of, lift=lift, max_iter=60, slow=50, outputs=ot, inputs=it, types=[str(x) for x in ref_types(T)], user=user)
    if mode == 'useful':
        n = xform.meaning(ctx, before, after, p, sr, set(p.outputs), f'abbreviate[{mode}]', ndb=2, **kw)
    else:
        n = xform.meaning(ctx, before, after, p, sr, sigs, f'abbreviate[{mode}]', ndb=2, **kw)
    if n:
        ctx.nontrivial((src, it, ot, tuple(steps)))
        ctx.sample({'program': src.split('\n'), 'types': ref_types(T), 'after': ref.show_program(after).split('\n')[:12]})
    if rng.random() < .35:
        N = A.prune() if rng.random() < .5 else A.prune_fast()
        ctx.event('pruned')
        xform.meaning(ctx, before, conv.from_program(N), p, sr, set(p.outputs), f'abbreviate[{mode}].prune', ndb=1, **kw)


def ref_types(T):
    return [ref.show_rule(conv.from_rule(t)) for t in T.chart]
