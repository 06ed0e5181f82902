"""C01: forward chaining computes exactly the least fixpoint (ground programs)."""
import ref, gen, conv
from common import *

RULE = ('random range-restricted programs (datalog with self-joins/diagonals/duplicate rules/constants/'
        'negative weights, infinite weights, and structured families) x semiring; non-trivial = reference fixpoint took >=2 rounds '
        'and has derived items; distinct by program+data text')
CASES = (6950, 40000)
REQUIRED = {'solved': 1500}
ASSUMPTIONS = ['the reference evaluator (lib/ref.py) implements the documented least-fixpoint semantics']


def run_case(ctx):
    rng = ctx.rng
    p = gen.any_prog(rng, p_family=.3, builtins=rng.random() < .4, functions=rng.random() < .3)
    vf = rng.random() < .15 and gen.add_varfactor(rng, p)
    srn = 'Float' if vf else pick_semiring(rng, p)
    if vf: ctx.event('varfactor')
    sr = ref.SEMIRINGS[srn]
    facts = p.facts(rng)
    if srn != 'Float':
        p.rules = nonneg(p.rules); facts = nonneg(facts)
    else: p.rules, facts = infinite(rng, p.rules, facts)
    rules = p.rules + facts
    if any(set(ref.variables(h)) - set(ref.variables(b)) for h, b in rules):
        ctx.skip('not range restricted')
    raw_rules = lift_rules(rules, srn)
    want, info = reference(ctx, raw_rules, sr, infinite_recursion=True)
    if info['iters'] > 150: ctx.skip('slow convergence')
    src = source(rules)
    ctx.notes['program'] = src
    ctx.notes['semiring'] = srn
    counter = [0]
    heap = counting_heap(20000 + 200 * info['joins'], counter)
    mode = rng.choice(['whole', 'data', 'auto'])
    try:
        if mode == 'whole':
            live = build(rng, rules, conv, srn)
            s = live.solver(AgendaType=heap)
            s()
        else:
            live = build(rng, p.rules, conv, srn)
            data = build(rng, facts, conv, srn)
            if mode == 'data':
                s = live.solver(AgendaType=heap)
                s(data)
            else:
                s = live(data, AgendaType=heap)
    except PopLimit as e:
        ctx.fail(str(e), program=src, semiring=srn)
    ctx.event('solved'); ctx.event('agenda_pops', counter[0]); ctx.event('mode_' + mode)
    got = conv.solver_chart(s, sr)
    expect_equal(ctx, got, want, sr, f'fixpoint differs ({srn}, {mode})', program=src)
    # support must not contain spurious items
    sol = conv.chart_of(s.sol(), sr)
    expect_equal(ctx, sol, want, sr, f'solution program differs ({srn}, {mode})', program=src)
    # query answering
    items = [k for k in want if k.__class__ is tuple]
    for _ in range(2):
        if not items: break
        q = pattern(rng, p.dom, rng.choice(items))
        res = conv.chart_of(s.user_query(conv.to_term(q, {})), sr)
        expect_equal(ctx, res, ref.query(want, q, sr), sr, f'query {ref.show(q)} ({srn})', program=src)
        ctx.event('queries')
    if info['iters'] >= 2 and len(want) > len(facts):
        ctx.nontrivial((src, srn))
        for t in p.tags: ctx.event('tag_' + t)
        ctx.sample({'program': src.split('\n'), 'semiring': srn, 'items': len(want), 'rounds': info['iters']})
