"""C25: normal-form rewrites preserve meaning."""
import ref, gen, conv, xform
from common import *
from dyna import Program

RULE = ('random programs with equality constraints between variables, constants and nested terms (satisfiable, failing, chained, circular, placed before and after their users), '
        'nested terms in heads and subgoals, repeated variables, comparisons, arithmetic, variables as factors, nonground rules; rewritten by normalize / resolve / run built-ins '
        '/ Boolean abstraction and compositions of them; values of all items compared by the reference evaluator on random data; the normal form is checked for shape and idempotence. '
        'Distinct by program and steps')
CASES = (4500, 40000)
REQUIRED = {'dbs': 2500, 'nonempty_dbs': 1700, 'normalize': 700, 'snap': 500, 'builtins': 400, 'bool': 250, 'idempotent': 700, 'equations': 1500}
ASSUMPTIONS = ['reference evaluator']
WALL = (60, 700)


def side(rng, vs, dom, depth=2):
    u = rng.random()
    if u < .45 and vs: return rng.choice(vs)
    if u < .65 or depth == 0: return rng.choice(dom) if dom else 0
    f = rng.choice(['s', 't', '$cons', 's'])
    if f == 's': return ('s', side(rng, vs, dom, depth - 1))
    return (f, side(rng, vs, dom, depth - 1), side(rng, vs, dom, depth - 1))


def add_equations(rng, p):
    rules = []
    n = 0
    for h, b in p.rules:
        b = list(b)
        vs = list(ref.variables([h] + b))
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            u = rng.random()
            pool = vs + [V('E1'), V('E2')]
            if u < .35: e = ('=', rng.choice(pool), side(rng, pool, p.dom))
            elif u < .5: e = ('=', side(rng, pool, p.dom), rng.choice(pool))
            elif u < .6: e = ('=', rng.choice(p.dom or [0]), rng.choice(p.dom or [0]))
            else: e = ('=', side(rng, pool, p.dom), side(rng, pool, p.dom))
            b.insert(rng.randint(0, len(b)), e); n += 1
        if rng.random() < .3 and vs:          # lift an argument out of a subgoal or of the head
            js = [j for j, y in enumerate(b) if y.__class__ is tuple and not ref.is_builtin(y) and len(y) > 1]
            if js:
                j = rng.choice(js)
                y = list(b[j]); k = rng.randint(1, len(y) - 1)
                v = V('L'); old, y[k] = y[k], v
                b[j] = tuple(y)
                b.insert(rng.randint(0, len(b)), ('=', v, old) if rng.random() < .5 else ('=', old, v)); n += 1
        if rng.random() < .2 and len(h) > 1:
            y = list(h); k = rng.randint(1, len(y) - 1)
            v = V('H'); old, y[k] = y[k], v
            h = tuple(y)
            b.insert(rng.randint(0, len(b)), ('=', v, old)); n += 1
        if rng.random() < .08 and len(h) > 1:
            h = (h[0],) + tuple(('t', a, a) if i == 0 else a for i, a in enumerate(h[1:]))
        rules.append((h, b))
    p.rules = rules
    return n


def is_flat(rules):
    for h, b in rules:
        if any(a.__class__ is not V for a in h[1:]): return (h, b), h
        for y in b:
            if y.__class__ is not tuple: continue
            if y[0] == '=' and len(y) == 3:
                if y[1].__class__ is not V: return (h, b), y
                if y[2].__class__ is tuple and any(a.__class__ is not V for a in y[2][1:]): return (h, b), y
            elif any(a.__class__ is not V for a in y[1:]): return (h, b), y
    return None


def has_eq(rules):
    return any(y.__class__ is tuple and y[0] == '=' for h, b in rules for y in b)


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < .25: p = rng.choice([gen.fam_path, gen.fam_list, gen.fam_evenodd, gen.fam_chain, gen.fam_count, gen.fam_hmm])(rng)
    else:
        p = gen.datalog(rng, nonground=rng.random() < .25, functions=rng.random() < .4, builtins=rng.random() < .4, maxarity=2, n_idb=rng.randint(1, 3))
        if rng.random() < .12: gen.add_varfactor(rng, p)
    arith = 'varfactor' in p.tags or 'arith' in p.tags
    if rng.random() < .9: ctx.event('equations', add_equations(rng, p))
    if rng.random() < .2: rng.shuffle(p.rules)
    srn = 'Float' if 'varfactor' in p.tags else rng.choice(['Float', 'Float', 'Boolean', 'MaxTimes', 'MinPlus'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    P = conv.to_program(p.rules)
    if rng.random() < .3: P = Program(src, inputs=decl(sorted(p.edb)), outputs=decl(p.outputs))
    if srn != 'Float': P = P.lift_semiring(conv.SR[srn])
    steps = []
    ctx.notes.update(program=src, steps=steps, semiring=srn)
    Q, boolean = P, False
    for _ in range(rng.choice([1, 1, 2, 3])):
        how = rng.choice(['normalize', 'normalize', 'snap', 'snap', 'builtins', 'bool'])
        steps.append(how); ctx.event(how)
        if how == 'normalize': N = Q.normalize_unification2()
        elif how == 'snap': N = Q.snap_unifications()
        elif how == 'builtins':
            try: N = Q.run_builtins()
            except TypeError as e:
                if 'not supported between instances' not in str(e): raise
                ctx.skip('ill-typed comparison')      # e.g. s(1) <= 5
        else: N = Q.booleanize(); boolean = True
        after = conv.from_program(N)
        ctx.notes['after'] = ref.show_program(after)
        if how == 'normalize':
            bad = is_flat(after)
            ctx.check(bad is None, 'not in normal form', rule=bad and ref.show_rule(bad[0]), subgoal=bad and ref.show(bad[1]), program=src)
            N2 = N.normalize_unification2()
            ctx.check(str(N2) == str(N) and N2.same(N), 'normalization is not idempotent', once=str(N), twice=str(N2), program=src)
            ctx.event('idempotent')
            ctx.check(len(after) == len(Q), 'normalization changed the number of rules', program=src)
        elif how == 'snap':
            ctx.check(not has_eq(after), 'an equation is left', program=src, after=ref.show_program(after))
        elif how == 'builtins':
            ctx.check(N.run_builtins().same(N), 'running built-ins again changes the program', once=str(N), program=src)
        elif how == 'bool':
            ctx.check(all(y.__class__ is tuple for h, b in after for y in b), 'the abstraction still contains weights', program=src)
            ctx.check(N.Semiring is conv.SR['Boolean'], 'the abstraction is not Boolean')
        if boolean:        # derivability: every weight counts as true
            bb = [(h, [y for y in b if y.__class__ is tuple]) for h, b in p.rules]
            n = xform.meaning(ctx, bb, after, p, ref.BoolR, xform.functors(p.rules) | set(p.edb), f'{steps}', ndb=2, max_iter=60, slow=50, drop_builtin_free=True,
                              lift=lambda f: [(h, []) for h, b in f])
        else:
            n = xform.meaning(ctx, before, after, p, sr, xform.functors(p.rules) | set(p.edb), f'{steps}', ndb=2, max_iter=60, slow=50, drop_builtin_free=True, lift=lambda f: lift_rules(f, srn))
        if n:
            ctx.nontrivial((src, tuple(steps)))
            ctx.sample({'program': src.split('\n'), 'steps': list(steps), 'after': ref.show_program(after).split('\n')[:10]})
        Q = N
