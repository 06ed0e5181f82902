"""C20: the left-corner transformation preserves the meaning of a program."""
import ref, gen, conv, xform
from common import *
from check_c19 import prog, divisor, legal, positions

RULE = ('random programs (grammars, chains, recursive and mutually recursive datalog, constants, repeated variables, structured terms, several semirings), '
        'random patterns (everything, items, generalizations, specializations) and random legal position maps; the transformed program (and its pruned form, '
        'and the transformation applied twice or to a slashed program) is evaluated by the reference evaluator on random data against the original. '
        'Distinct by program, pattern and positions')
CASES = (1300, 30000)
REQUIRED = {'dbs': 2400, 'nonempty_dbs': 2200, 'lct': 1100, 'pruned': 250}
ASSUMPTIONS = ['reference evaluator (with the documented meaning of $not_matches: succeeds iff the term does not unify with the pattern)']
WALL = (60, 700)


def run_case(ctx):
    rng = ctx.rng
    p = prog(rng)
    if len(p.rules) > 9: ctx.skip('large')
    srn = rng.choice(['Float', 'Float', 'Float', 'Boolean', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    x = ref.V('X') if rng.random() < .45 else divisor(rng, p)
    pos = positions(rng, p, x)
    ctx.notes.update(program=src, pattern=ref.show(x), positions=pos, semiring=srn)
    P = xform.live(p, rng=rng, semiring=srn)
    sigs = xform.functors(before)
    try:
        S = P.lct(positions=pos, x=conv.to_term(x, {}))
    except AssertionError:
        ctx.event('refused'); ctx.skip('refused')
    ctx.event('lct')
    lift = lambda f: lift_rules(f, srn)
    after = conv.from_program(S)
    what = f'lct({pos}, x={ref.show(x)})'
    n = xform.meaning(ctx, before, after, p, sr, sigs, what, ndb=2, lift=lift, max_iter=60, slow=50)
    if n and pos:
        ctx.nontrivial((src, ref.show(x), tuple(pos.items())))
        ctx.sample({'program': src.split('\n'), 'pattern': ref.show(x), 'positions': {str(k): v for k, v in pos.items()}, 'transformed': ref.show_program(after).split('\n')[:12]})
    if rng.random() < .3:
        try: T = S.prune_fast()
        except (AssertionError, NotImplementedError): T = None
        if T is not None:
            ctx.event('pruned')
            xform.meaning(ctx, before, conv.from_program(T), p, sr, set(p.outputs), what + '.prune_fast()', ndb=1, lift=lift, max_iter=60, slow=50)
    if rng.random() < .15 and len(S) < 16:
        x2 = ref.V('X') if rng.random() < .5 else divisor(rng, p)
        pos2 = {}
        for i, (h, b) in enumerate(after):
            js = [j for j, y in enumerate(b) if y.__class__ is tuple and not ref.is_builtin(y) and legal(x2, y)]
            if js and rng.random() < .5: pos2[i] = rng.choice(js)
        slash = rng.random() < .4
        try: T = S.slash(conv.to_term(x2, {}), positions=pos2) if slash else S.lct(positions=pos2, x=conv.to_term(x2, {}))
        except AssertionError: return
        ctx.event('twice')
        xform.meaning(ctx, before, conv.from_program(T), p, sr, sigs, what + f'.{"slash" if slash else "lct"}({ref.show(x2)}, {pos2})', ndb=1, lift=lift, max_iter=60, slow=50)
