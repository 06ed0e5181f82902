"""C02: the solver for non-ground items agrees with the reference on every ground instance."""
import ref, gen, conv
from common import *

RULE = ('random programs whose rules and facts may leave head variables unbound (items standing for all '
        'their instances) x semiring; compared on every ground instance over the active domain plus fresh '
        'constants; non-trivial = a non-ground item is in the reference chart or >=2 rounds were needed')
CASES = (2500, 30000)
REQUIRED = {'solved': 800, 'nonground_items': 800, 'infinite_values': 15}
ASSUMPTIONS = ['reference evaluator', 'programs where one non-ground item matches two non-unifying subgoals of one rule are generated too']


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < .2:
        p = gen.any_prog(rng, p_family=.5)
    else:
        p = gen.datalog(rng, nonground=True, builtins=rng.random() < .1, functions=rng.random() < .15, maxarity=2)
    vf = rng.random() < .2 and 'nonground' not in p.tags and gen.add_varfactor(rng, p)
    srn = 'Float' if vf else pick_semiring(rng, p)
    if vf: ctx.event('varfactor')
    sr = ref.SEMIRINGS[srn]
    facts = p.facts(rng)
    if not vf and rng.random() < .3:      # non-ground data
        f, n = rng.choice(sorted(p.edb))
        if n:
            vs = [V('A'), V('B')]
            facts = facts + [((f,) + tuple(rng.choice(vs + p.dom) for _ in range(n)), [p.weights(rng)])]
    if srn != 'Float':
        p.rules = nonneg(p.rules); facts = nonneg(facts)
    rules = p.rules + facts
    want, info = reference(ctx, lift_rules(rules, srn), sr)
    if info['iters'] > 120: ctx.skip('slow convergence')
    src = source(rules)
    ctx.notes.update(program=src, semiring=srn)
    counter = [0]
    heap = counting_heap(3000 + 30 * info['joins'], counter)
    mode = rng.choice(['whole', 'data', 'auto'])
    try:
        if mode == 'whole':
            s = build(rng, rules, conv, srn).solver2(AgendaType=heap)
            s()
        else:
            live = build(rng, p.rules, conv, srn)
            data = build(rng, facts, conv, srn)
            s = live.solver2(AgendaType=heap) if mode == 'data' else None
            if s is None:
                s = live(data, AgendaType=heap, solver=2)
            else:
                s(data)
    except PopLimit as e:
        ctx.fail(str(e), program=src, semiring=srn)
    ctx.event('solved'); ctx.event('agenda_pops', counter[0])
    ng = sum(not ref.ground(k) for k in want)
    ctx.event('nonground_items', ng)
    got = conv.solver_chart(s, sr)
    got = {k: v for k, v in got.items() if not (k.__class__ is tuple and str(k[0]).startswith('$gen'))}
    expect_equal(ctx, got, want, sr, f'fixpoint differs ({srn}, {mode})', program=src)
    items = [k for k in want if k.__class__ is tuple]
    for _ in range(2):
        if not items: break
        q = pattern(rng, p.dom or [0], rng.choice(items))
        res = conv.chart_of(s.user_query(conv.to_term(q, {})), sr)
        expect_equal(ctx, res, ref.query(want, q, sr), sr, f'query {ref.show(q)} ({srn})', program=src)
        ctx.event('queries')
    if ng or (info['iters'] >= 2 and len(want) > len(facts)):
        ctx.nontrivial((src, srn))
        ctx.sample({'program': src.split('\n'), 'semiring': srn, 'items': len(want), 'nonground': ng})
