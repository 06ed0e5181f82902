"""C05: Newton iteration and the linear solver return the least solution."""
import ref, gen, conv
from common import *

RULE = ('random recursive programs (linear: transitive closure, chains, cyclic linear systems; polynomial: CKY-like, '
        'context-free and quadratic systems, mutually recursive datalog; a third with non-ground items, built-ins or variables as factors) x semiring; oracle: reference least fixpoint, and '
        'every Newton iterate must stay below it; non-trivial = recursive program with derived items')
CASES = (2400, 18000)
REQUIRED = {'newton': 500, 'linear': 300, 'general': 150, 'nonground_items': 120, 'infinite_values': 4}
ASSUMPTIONS = ['reference evaluator', 'non-negative weights with a finite least fixpoint']
CASE_LIMIT = (30, 60)


def linear_system(rng):
    "x_i = b_i + sum_j A_ij x_j over nullary items or over indexed items"
    n = rng.randint(1, 5)
    X, Y = V('X'), V('Y')
    style = rng.choice(['nullary', 'indexed', 'mixed'])
    w = lambda r: r.choice([.1, .2, .25, .3, .05])
    rules = []
    if style == 'nullary':
        for i in range(n):
            if rng.random() < .7: rules.append(((f'x{i}',), [w(rng)]))
            for j in range(n):
                if rng.random() < .5: rules.append(((f'x{i}',), [w(rng), (f'x{j}',)] if rng.random() < .5 else [(f'x{j}',), w(rng)]))
        return rules
    for i in range(n):
        if rng.random() < .5: rules.append((('x', i), [w(rng)]))
        for j in range(n):
            if rng.random() < .4: rules.append((('x', i), [('x', j), w(rng)]))
    if style == 'mixed':
        rules.append((('y', X), [('x', X), 2]))
        rules.append((('z', X, Y), [('x', X), 0.5] if rng.random() < .3 else [('y', X), .5]))
        h, b = rules[-1]
        rules[-1] = (h[:2] + (rng.choice(range(n)),), b)
        rules.append((('tot',), [('z', X, Y)]))
    return rules


def poly(rng):
    X, Y, Z, I, J, K = [V(c) for c in 'XYZIJK']
    k = rng.choice(['catalan', 'system', 'datalog', 'path', 'cky'])
    if k == 'catalan':
        a, b = rng.choice([(.2, .3), (.1, .5), (.3, .3), (.05, .9), (.2, .2)])
        rules = [(('x',), [a]), (('x',), [b, ('x',), ('x',)])]
        if rng.random() < .5: rules.append((('x',), [rng.choice([.05, .1]), ('x',)]))
        if rng.random() < .5: rules += [(('y',), [('x',), ('x',), .5]), (('y',), [('y',), ('x',), .2])]
        if rng.random() < .3: rules.append((('x',), [.02, ('x',), ('x',), ('x',)]))
        return rules
    if k == 'system':
        n = rng.randint(2, 3)
        rules = [((f'x{i}',), [rng.choice([.1, .2])]) for i in range(n) if i == 0 or rng.random() < .6]
        for i in range(n):
            for _ in range(rng.randint(1, 3)):
                m = rng.randint(1, 3)
                rules.append(((f'x{i}',), [rng.choice([.1, .2, .3])] + [(f'x{rng.randrange(n)}',) for _ in range(m)]))
        return rules
    if k == 'datalog':
        p = gen.datalog(rng, builtins=False, maxarity=1)
    elif k == 'path':
        p = gen.fam_path(rng)
    else:
        p = gen.fam_cky(rng)
    return p.rules + p.facts(rng, density=.5)


def general(rng, linear):
    "Relational programs with items standing for all their instances, built-ins and variables as factors."
    p = gen.datalog(rng, nonground=rng.random() < .75, builtins=rng.random() < .3, functions=rng.random() < .15, maxarity=2)
    if rng.random() < .2 and 'nonground' not in p.tags: gen.add_varfactor(rng, p)
    rules = p.rules + p.facts(rng, density=.5)
    if linear:     # keep one item per rule
        out = []
        for h, b in rules:
            k = [i for i, y in enumerate(b) if is_item(y)]
            keep = rng.choice(k) if k else None
            b = [y for i, y in enumerate(b) if i == keep or not is_item(y)]
            vs = set(ref.variables([y for y in b if is_item(y)]))
            b = [y for y in b if is_item(y) or not y.__class__ in (tuple, V) or set(ref.variables(y)) <= vs or y.__class__ is tuple and y[0] == 'is' and set(ref.variables(y[2])) <= vs]
            out.append((h, b))
        rules = out
    return rules


def is_item(y):
    return y.__class__ is tuple and not ref.is_builtin(y)


def run_case(ctx):
    rng = ctx.rng
    linear = rng.random() < .45
    mode = 'ground'
    if rng.random() < .35:
        mode = 'general'
        rules = general(rng, linear)
    elif linear:
        if rng.random() < .6: rules = linear_system(rng)
        else:
            p = rng.choice([gen.fam_path, gen.fam_chain])(rng)
            # make it linear: inline the data by grounding the extensional subgoals
            facts = {h: b[0] for h, b in p.facts(rng, density=.5) if b}
            rules = []
            for h, b in p.rules:
                st = [{}]
                outs = [({}, [])]
                for y in b:
                    if y.__class__ is tuple and (y[0], len(y) - 1) in p.edb:
                        nxt = []
                        for s, bb in outs:
                            for f, w in facts.items():
                                t = ref.unify(y, f, s)
                                if t is not None: nxt.append((t, bb + [w]))
                        outs = nxt
                    else:
                        outs = [(s, bb + [y]) for s, bb in outs]
                for s, bb in outs[:40]:
                    rules.append((ref.resolve(h, s), [ref.resolve(y, s) for y in bb]))
            if not rules: ctx.skip('empty')
            rng.shuffle(rules)
    else:
        rules = poly(rng)
    rules = nonneg(rules)
    vf = any(y.__class__ is V for h, b in rules for y in b)
    srn = 'Float' if vf or rng.random() < .55 else rng.choice(['Boolean', 'MinPlus', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn == 'MaxTimes': rules = [(h, [min(y, .9) if isinstance(y, (int, float)) else y for y in b]) for h, b in rules]
    lifted = lift_rules(rules, srn)
    want, info = reference(ctx, lifted, sr)
    if info['iters'] > 120: ctx.skip('slow convergence')
    if len(want) > 45: ctx.skip('large')
    src = source(rules)
    ctx.notes.update(program=src, semiring=srn)
    live = build(rng, rules, conv, srn)
    is_lin = all(sum(map(is_item, b)) <= 1 for _, b in rules)
    if mode == 'general':
        if vf and not all(map(ref.ground, want)): ctx.skip('a variable without a value as a factor')
        ctx.event('general')
        ctx.event('nonground_items', sum(not ref.ground(k) for k in want))
    if is_lin:
        sol = live.solve_linear()
        expect_equal(ctx, conv.chart_of(sol, sr), want, sr, f'solve_linear ({srn})', program=src)
        ctx.event('linear')
    if not is_lin or rng.random() < .3:
        done = None
        prev = {}
        for (t, chart, change_p, change, nxt) in live._newton():
            try:
                got = conv.chart_of(nxt, sr)
            except conv.NotChart as e:
                ctx.fail(f'Newton iterate {t} has an unsolved rule {e}', program=src)
            ctx.event('iterates')
            for k, v in got.items():
                w = want.get(k, sr.zero)
                bad = {'Float': lambda: v > w + 1e-6 * max(1, abs(w)), 'Boolean': lambda: v and not w,
                       'MinPlus': lambda: v < w - 1e-6, 'MaxTimes': lambda: v > w + 1e-6}[srn]()
                ctx.check(not bad, f'Newton iterate {t} overshoots the least solution at {ref.show(k)}: {v} > {w} ({srn})', program=src)
            if chart == nxt: break
            if t > 30: ctx.skip('newton slow')
        expect_equal(ctx, got, want, sr, f'newton fixpoint ({srn})', program=src)
        expect_equal(ctx, conv.chart_of(live.newton(), sr), want, sr, f'newton ({srn})', program=src)
        ctx.event('newton')
    if gen.is_recursive(rules) and want and info['iters'] >= 2:
        ctx.nontrivial((src, srn))
        ctx.sample({'program': src.split('\n'), 'semiring': srn, 'items': len(want), 'rounds': info['iters']})
