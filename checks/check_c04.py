"""C04: every bottom-up strategy reaches the same chart; n steps = derivations of height <= n."""
import itertools
import ref, gen, conv
from common import *

RULE = ('random programs (range-restricted, with builtins, with diagonals; some with infinite weights or non-ground items) x semiring x '
        '{naive fc, semi-naive, agenda, solver, solver2} and every prefix of the step sequence; oracle: reference '
        'consequence operator iterated the same number of times; non-trivial = at least 2 rounds and derived items')
CASES = (2500, 20000)
REQUIRED = {'strategies': 3500, "steps": 2500}
ASSUMPTIONS = ['reference evaluator', 'float tolerance 1e-4 for agenda (its precision parameter) and 1e-5 elsewhere']
CASE_LIMIT = (30, 60)


def run_case(ctx):
    rng = ctx.rng
    nong = rng.random() < .2
    if rng.random() < .3:
        p = rng.choice([gen.fam_path, gen.fam_list, gen.fam_evenodd, gen.fam_hmm, gen.fam_chain])(rng)
    else:
        p = gen.datalog(rng, builtins=rng.random() < .25, maxarity=2, nonground=nong, coeffs=True)
    srn = pick_semiring(rng, p)
    sr = ref.SEMIRINGS[srn]
    facts = p.facts(rng, density=.5)
    if srn != 'Float':
        p.rules = nonneg(p.rules); facts = nonneg(facts)
    else: p.rules, facts = infinite(rng, p.rules, facts, .08)
    rules = p.rules + facts
    if infinity(rules) and signed(rules): ctx.skip('inf - inf')
    rules = [(h, b or [sr.one if srn != 'Boolean' else 1.0]) for h, b in rules] if rng.random() < .3 else rules
    nong = any(set(ref.variables(h)) - set(ref.variables(b)) for h, b in rules)
    lifted = lift_rules(rules, srn)
    want, info = reference(ctx, lifted, sr, infinite_recursion=True)
    if info['iters'] > 25: ctx.skip('slow convergence')
    if len(want) > 60 or info['joins'] > 4000: ctx.skip('large')
    if srn == 'Float' and any(1e5 < abs(v) < math.inf for v in want.values()): ctx.skip('large values')
    src = source(rules)
    ctx.notes.update(program=src, semiring=srn)
    live = build(rng, rules, conv, srn)

    def cmp(chart, w, what, tol=1e-5):
        try:
            got = conv.chart_of(chart, sr)
        except conv.NotChart as e:
            ctx.fail(f'{what}: unsolved rule {e}', program=src)
        expect_equal(ctx, got, w, sr, f'{what} ({srn})', program=src, tol=tol)
        ctx.event('strategies')

    # the step sequence = derivations of height <= n
    stats = [0, 10**7]
    old = {}
    n = 0
    cap = rng.randint(2, 7)
    for chart in itertools.islice(live._fc(), cap):
        if n:
            new = ref.consequence(lifted, old, sr, stats)
            cmp(chart, new, f'step {n}')
            ctx.event('steps')
            old = new
        n += 1
    strat = ['fc', 'agenda', 'solver2', 'naive_n'] + ([] if nong else ['solver', 'seminaive'])
    # strategies accumulate signed cancellations: they may stop early when a round changes nothing
    for st in rng.sample(strat, min(len(strat), 4)):
        ctx.notes['strategy'] = st
        ctx.event('strategy_' + st)
        if st == 'fc':
            cmp(live.fc(), want, 'fc')
        elif st == 'naive_n':
            k = rng.randint(1, 5)
            old = {}
            for _ in range(k): old = ref.consequence(lifted, old, sr, stats)
            cmp(live.fc(max_iter=k), old, f'fc(max_iter={k})')
        elif st == 'seminaive':
            cmp(live.seminaive(), want, 'seminaive')
        elif st == 'agenda':
            cmp(live.agenda(), want, 'agenda', tol=1e-4)
        elif st == 'solver':
            cmp(live.solver()().sol(), want, 'solver')
        else:
            got = conv.solver_chart(live.solver2()(), sr)
            got = {k: v for k, v in got.items() if not str(k[0]).startswith('$gen')}
            expect_equal(ctx, got, want, sr, f'solver2 ({srn})', program=src)
            ctx.event('strategies')
    if info['iters'] >= 2 and len(want) > len(facts):
        ctx.nontrivial((src, srn))
        ctx.sample({'program': src.split('\n'), 'semiring': srn, 'items': len(want), 'rounds': info['iters']})
