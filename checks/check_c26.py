"""C26: the transformation search visits and returns equivalent programs, and reports the cost of what it returns."""
import warnings, io, contextlib
import ref, gen, conv, xform, foldwork
from common import *
from dyna import Program
from check_c19 import prog as prog19

RULE = ('random programs with declared inputs and outputs (joins, chains, recursion, self-joins, constants, several outputs); agenda-based search (greediness, reversible folds, random seeds) '
        'and beam search (graph 1 and 2; fold, fold+, fold*, unfold, elim, megafold; beam sizes, tidying, budgets, depth limits, cost functions); programs visited (sampled, always including the '
        'best) are evaluated by the reference evaluator on random data against the source; best cost is recomputed. Distinct by program and search configuration')
CASES = (900, 8000)
REQUIRED = {"visited": 4000, "compared": 2000, "dbs": 2000, "agenda": 110, "beam": 220, "improved": 90}
ASSUMPTIONS = ['reference evaluator']
WALL = (90, 800)
CASE_CPU = 40


def prog(rng):
    X, Y, Z, W, U = [V(n) for n in 'XYZWU']
    u = rng.random()
    if u < .25: return foldwork.prog(rng)
    if u < .45: return prog19(rng)
    if u < .75:
        k = rng.choice([.1, .2]); c = rng.choice([1, ('a',)])
        shapes = [
            [(('g',), [('u0', X), ('u1', X, Y), ('u1', Y, Z), ('u0', Z)])],
            [(('g', X), [('u1', X, Y), ('u1', Y, Z), ('u0', Z)])],
            [(('p', X, X), [1]), (('p', X, Z), [('p', X, Y), ('u1', Y, Z), k]), (('g',), [('u0', X), ('p', X, Y), ('u0', Y)])],
            [(('p', X, Z), [('u1', X, Y), ('p', Y, Z), k]), (('p', X, Z), [('u1', X, Z)]), (('g', X), [('p', X, Y), ('u0', Y)])],
            [(('g',), [('u0', X), ('u0', X)]), (('h',), [('u0', X), ('u0', Y), ('u1', X, Y)])],
            [(('p', X), [('u1', X, Y), ('u0', Y)]), (('g',), [('p', X), ('p', X)]), (('g',), [('u1', c, Y), ('p', Y)])],
            [(('p', X), [('u0', X)]), (('p', c), [('u0', X)]), (('g', X), [('p', X), ('u1', X, Y), ('p', Y)])],
            [(('p', X, Y), [('u1', X, Z), ('u1', Z, Y)]), (('g',), [('p', X, Y), ('p', Y, W), ('u0', W)])],
            [(('p', X), [('p', X), k]), (('p', X), [('u0', X)]), (('g', X), [('p', X), ('u1', X, Y)])],
            [(('g', X), [('u1', X, Y), 2, ('u0', Y), k]), (('g', X), [('u0', X), ('u0', Y), ('<', X, Y)])],
            [(('g', X), [('u0', X), ('u0', Y), ('u0', Z)]), (('h',), [('g', X), ('g', Y)])],
        ]
        rules = list(rng.choice(shapes))
        if rng.random() < .25: rules.append(rng.choice(rules))
        rng.shuffle(rules)
        heads = {(h[0], len(h) - 1) for h, b in rules}
        edb = {(y[0], len(y) - 1) for h, b in rules for y in b if y.__class__ is tuple and not ref.is_builtin(y)} - heads
        outs = [h for h in sorted(heads) if h[0] in 'gh'] or [sorted(heads)[-1]]
        dom = gen.domain(rng, 'ints' if any(ref.is_builtin(y) for h, b in rules for y in b if y.__class__ is tuple) else None)
        if c not in dom: dom = dom[:3] + [c]
        if any(ref.is_builtin(y) for h, b in rules for y in b if y.__class__ is tuple): dom = [d for d in dom if isinstance(d, int)]
        return gen.Prog(rules, edb, outs if rng.random() < .5 else [rng.choice(outs)], dom, gen.w_small, ('shape',))
    return gen.datalog(rng, maxarity=2, n_idb=rng.randint(1, 3), max_body=3, builtins=rng.random() < .2, nonground=rng.random() < .15)


def run_case(ctx):
    rng = ctx.rng
    warnings.simplefilter('ignore')
    p = prog(rng)
    if len(p.rules) > 6: ctx.skip('large')
    srn = rng.choice(['Float', 'Float', 'Float', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    P = xform.live(p, rng=rng, semiring=srn)
    sigs = set(p.outputs)
    kind = rng.choice(['agenda', 'beam', 'beam'])
    conf = {}
    ctx.notes.update(program=src, semiring=srn, outputs=sorted(sigs), config=conf)
    visited = []
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        if kind == 'agenda':
            conf.update(kind=kind, p_greedy=rng.choice([0, .5, .75, 1]), ALLOW_REVERSIBLE=rng.random() < .3, seed=rng.randrange(1000))
            kw = dict(conf); kw.pop('kind')
            steps = rng.choice([5, 20, 60] if ctx.tier == 'quick' else [5, 20, 60, 150])
            conf['steps'] = steps
            G = P.optimizer(**kw)
            start = P.prune_fast().degrees()
            for q in G.run_agenda(steps): visited.append(q)
            best, best_cost = G.optimize_plans(), G._best_cost
            recost = best.prune_fast().degrees()
            others = list(G.to_collection())
        else:
            graph = rng.choice([1, 2])
            pool = ['fold', 'fold+', 'fold*', 'unfold', 'elim', 'noop'] + (['megafold'] if graph == 1 else [])
            TR = tuple(rng.sample(pool, rng.randint(1, 3)))
            if rng.random() < .3: TR = ('fold*', 'unfold', 'elim')
            if 'fold+' in TR and any(len(b) > 5 for h, b in p.rules): ctx.skip('wide')
            cost = rng.choice([None, None, lambda q: (q.degree, len(q.rules)), lambda q: (len(q.rules), sum(len(r.body) for r in q.rules))])
            conf.update(kind=kind, graph=graph, TRANSFORMS=TR, beam_size=rng.choice([1, 2, 5, 10]), reps=rng.choice([10, 40, 80]), max_depth=rng.choice([1, 2, 3, 6, 10]), tidy=rng.random() < .7)
            kw = dict(conf); kw.pop('kind')
            if cost: kw['cost'] = cost
            S = P.beam(**kw, verbosity=0)
            visited = list(S.programs.values())
            best, best_cost = S.best, S.best_cost
            recost = S.G.cost(best)
            start = S.G.cost(P)
            ctx.check(min(x['cost'] for x in S.log) == best_cost, 'the best cost is not the least of the log', best=str(best_cost))
            ctx.check(len(S.log) == len(S.programs) <= kw['reps'], 'budget or log wrong')
            for x in S.log: ctx.check(x['cost'] == S.G.cost(S.programs[x['i']]), 'a logged cost is not the cost of the program', i=x['i'])
            others = list(S.collection)
    ctx.event(kind)
    ctx.event('visited', len(visited))
    ctx.check(best_cost == recost, 'reported best cost is not the cost of the returned program', reported=str(best_cost), cost=str(recost), best=conv.show(best) if hasattr(conv, 'show') else str(best))
    ctx.check(not start < best_cost, 'the best program is costlier than the start', start=str(start), best=str(best_cost))
    if best_cost < start: ctx.event('improved')
    for q in [best, P] + rng.sample(visited, min(len(visited), 4)):
        ns = sorted((len(set(ref.variables(list(r)))) for r in conv.from_program(q)), reverse=True)
        ctx.check(tuple(q.degrees()) == tuple(ns) and q.degree == max(ns, default=0), 'the degrees of a program are not the numbers of variables of its rules', got=str(q.degrees()), want=ns, prog=str(q))
        for r in q.rules:
            h, b = conv.from_rule(r)
            use = {v: {i for i, y in enumerate(b) if v in set(ref.variables(y))} for v in set(ref.variables(b)) - set(ref.variables(h))}
            all_ = {i for i, y in enumerate(b) if list(ref.variables(y))}
            want = sum(1 for v, i in use.items() if i < all_)
            ctx.check(len(r.analyzer.can_elim) == want, 'wrong number of eliminable variables', rule=str(r), got=str(r.analyzer.can_elim), want=want)
        ctx.event('degrees')
    seen = {}
    for q in visited + others: seen.setdefault(id(q), q)
    todo = [best] + rng.sample(list(seen.values()), min(len(seen), 6))
    lift = lambda f: lift_rules(f, srn)
    n = 0
    for k, q in enumerate(todo):
        after = foldwork.plain(q)
        if len(after) > 40: continue
        n += xform.meaning(ctx, before, after, p, sr, sigs, ('best' if k == 0 else 'visited') + ' program', ndb=2 if k == 0 else 1, lift=lift, max_iter=60, slow=50,
                           history=[str(getattr(z, 'name', 'root')) for z in q.lineage()])
        ctx.event('compared')
    if n: ctx.nontrivial((src, str(sorted(map(str, conf.items())))))
    ctx.sample({'program': src.split('\n'), 'config': {k: str(v) for k, v in conf.items()}, 'visited': len(visited), 'start': str(start), 'best': str(best_cost)})
