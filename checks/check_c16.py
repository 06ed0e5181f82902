"""C16: constant folding, sorting, renaming, adding, lifting preserve meaning; the distance between programs is exact."""
import math
import ref, gen, conv, xform, iso
from common import *
from dyna import Program, Rule

RULE = ('random programs with constants in every body position (several per rule, zero, one, cancelling), rules repeated up to renaming and '
        'subgoal order, non-ground facts, in four semirings, put through constant_folding / sort / fresh / + / - / lift_semiring and evaluated by the '
        'reference evaluator on random data before and after; pairs of charts (shared, missing, perturbed, infinite, non-ground items, values '
        'split over several facts) whose metric / assert_equal verdict is compared with the distance computed directly. Distinct by program / pair')
CASES = (2500, 50000)
REQUIRED = {'dbs': 4500, 'nonempty_dbs': 3500, 'metrics': 2500, 'merged_rules': 700}
ASSUMPTIONS = ['reference evaluator', 'constants smaller than 1e-7 (dropped by design) are not generated']
WALL = (60, 700)


def variant_rule(rng, r):
    "same rule, other names and subgoal order, other constants"
    m = {}
    h = ref.rename(r[0], m)
    b = [ref.rename(y, m) for y in r[1] if y.__class__ in (tuple, V)]
    if rng.random() < .6: rng.shuffle(b)
    for _ in range(rng.choice([0, 1, 1, 2])):
        b.insert(rng.randrange(len(b)+1), rng.choice([1, 2, .5, 3, 0.25, 1.0]))
    return (h, b)


def meanings(ctx):
    rng = ctx.rng
    rec = rng.random() < .4
    p = gen.datalog(rng, recursive=rec, nonground=rng.random() < .3, builtins=rng.random() < .3, functions=False)
    srn = pick_semiring(rng, p)
    sr = ref.SEMIRINGS[srn]
    rules = list(p.rules)
    for _ in range(rng.randint(1, 4)):
        h, b = variant_rule(rng, rng.choice(rules))
        if rec: b = [y for y in b if y.__class__ in (tuple, V)] + [.05]
        rules.append((h, b))
        if not rec and rng.random() < .3 and b and srn == 'Float':
            # a cancelling copy
            k = [i for i, y in enumerate(b) if y.__class__ not in (tuple, V)]
            if k:
                b2 = list(b); b2[k[0]] = -b2[k[0]]; rules.append((ref.rename(h), b2)) if not ref.variables(h) and not ref.variables(list(b)) else None
    if rng.random() < .15: rules.append((rng.choice(rules)[0], [0]))
    facts = p.facts(rng)[:rng.randint(0, 4)]
    for h, b in facts:
        rules.append((h, b))
        if rng.random() < .4: rules.append((h, [2] + list(b)))
    rng.shuffle(rules)
    if srn != 'Float': rules = nonneg(rules)
    if srn == 'MinPlus': rules = [(h, b) for h, b in rules if b != [0]]
    before = lift_rules(rules, srn)
    src = source(rules)
    ctx.notes.update(program=src, semiring=srn)
    P = build(rng, rules, conv, srn)
    op = rng.choice(['fold', 'fold', 'fold', 'fold2', 'sort', 'fresh', 'add', 'sub', 'lift', 'plain'])
    if op == 'fold': Q = P.constant_folding()
    elif op == 'fold2': Q = P.constant_folding().sort().constant_folding()
    elif op == 'sort': Q = P.sort()
    elif op == 'fresh': Q = P.fresh()
    elif op == 'lift': Q = P
    elif op == 'plain':
        if srn != 'Float': ctx.skip('semiring values have no text form')
        Q = Program(P.plaintext())
    elif op == 'add':
        k = rng.randint(0, len(rules))
        A, B = build(rng, rules[:k], conv, srn), build(rng, rules[k:], conv, srn)
        Q = (A + B) if rng.random() < .5 else (B + A)
        if rng.random() < .3: Q = A + list(B)
    elif op == 'sub':
        rm = rng.sample(range(len(rules)), rng.randint(0, len(rules)))
        Q = P - rm
        before = [r for i, r in enumerate(before) if i not in rm]
    after = [(h, [conv.raw(y) for y in b]) for h, b in conv.from_program(Q)]
    ctx.event('op_' + op)
    if op.startswith('fold'):
        ctx.event('merged_rules', max(0, len(before) - len(after)))
        ctx.check(len(after) <= len(before), 'folding created rules', program=src, after=source(after))
        ctx.check(conv.from_program(P) and iso.program_iso([(h, list(b)) for h, b in conv.from_program(P)], conv.from_program(build(rng, rules, conv, srn, text=False)), iso.loose),
                  'folding changed its input program', program=src)
        # a merged coefficient may cancel to zero; such a rule is only dropped by the next folding
        cancelled = any(sr.dist(y, sr.zero) < 1e-9 for h, b in conv.from_program(P.constant_folding()) for y in map(conv.raw, b) if y.__class__ not in (tuple, V))
        ctx.check(cancelled or P.metric(Q) <= 1e-6 and Q.metric(P) <= 1e-6, 'a program is not at distance zero from its folded form', program=src, after=source(after))
        for h, b in after:
            ctx.check(sum(1 for y in b if y.__class__ not in (tuple, V)) <= 1, 'folded rule with two constants', after=source(after))
    if op in ('fresh', 'sort'):
        ctx.check(P == Q, f'{op} changed the rules', program=src, after=source(after))
    sigs = xform.functors(before)
    # MinPlus: the unit is cost 0; raw() maps constants back to plain numbers
    n = xform.meaning(ctx, before, after, p, sr, sigs, op, ndb=3, lift=lambda f: lift_rules(f, srn))
    if n: ctx.nontrivial((op, src, srn)); ctx.sample({'op': op, 'program': src.split('\n')[:8], 'semiring': srn})


def chart(rng, nong):
    out = []
    for _ in range(rng.randint(0, 5)):
        f = rng.choice(['p', 'q'])
        k = (f,) + tuple(rng.choice([1, 2, ('a',), 'x'] + ([V('X'), V('Y')] if nong else [])) for _ in range(rng.choice([1, 2])))
        out.append((k, rng.choice([.5, 1, 2, 3, 4, 1.25])))
    return out


def metrics(ctx):
    rng = ctx.rng
    srn = pick_semiring(rng, None)
    sr = ref.SEMIRINGS[srn]
    nong = rng.random() < .3
    A = chart(rng, nong)
    if srn == 'Float' and rng.random() < .15:
        A = [(k, math.inf if rng.random() < .4 else v) for k, v in A]
    # second chart: same items, some perturbed, dropped, added, split
    B = []
    for k, v in A:
        u = rng.random()
        if u < .12: continue
        if u < .3: v = v + rng.choice([.25, 1e-4, 1e-6, -.5 if v > .5 else .5, 2, 1e-8])
        if u > .85 and srn == 'Float' and v > .3:
            B.append((ref.rename(k), v - .25)); B.append((ref.rename(k), .25))
        else: B.append((ref.rename(k), v))
    if rng.random() < .15: B += chart(rng, nong)[:1]
    rng.shuffle(B)
    def rules(c): return [(k, [v] if rng.random() < .8 else [v, 1] if srn in ('Float', 'MaxTimes') else [v]) for k, v in c]
    ra, rb = rules(A), rules(B)
    if srn == 'Boolean': ra, rb = [(h, [1]) for h, _ in ra], [(h, [1]) for h, _ in rb]
    def tot(c):
        out = {}
        for k, b in c:
            v = sr.one
            for y in lift_rules([(k, b)], srn)[0][1]: v = sr.times(v, y)
            k = ref.canon(k)
            out[k] = sr.plus(out[k], v) if k in out else v
        return out
    a, b = tot(ra), tot(rb)
    if set(a) != set(b): want = math.inf
    else:
        want = max([(0 if a[k] == b[k] else abs(a[k] - b[k]) if srn == 'Float' else float(a[k] != b[k])) for k in a], default=0)   # the semiring library's metric is discrete elsewhere
    P, Q = build(rng, ra, conv, srn), build(rng, rb, conv, srn)
    ctx.notes.update(a=source(ra), b=source(rb), semiring=srn)
    for x, y in ((P, Q), (Q, P)):
        got = x.metric(y)
        ctx.check(abs(float(got) - want) < 1e-9 or got == want, f'metric is {got!r}, the largest difference of an item is {want!r}', a=source(ra), b=source(rb), semiring=srn)
        ctx.event('metrics'); ctx.event('infinite_values', any(v == math.inf for v in a.values())); ctx.event('metric_inf' if want == math.inf else 'metric_zero' if want == 0 else 'metric_pos')
    for prec in (2, 5):
        if abs(want - 10 ** -prec) < 1e-12: continue
        try: P.assert_equal(Q, precision=prec); ok = True
        except AssertionError: ok = False
        ctx.check(ok == (want <= 10 ** -prec), f'assert_equal says {ok} at distance {want!r} (precision {prec})', a=source(ra), b=source(rb), semiring=srn)
        ctx.event('assert_equal')
    # programs with symbolic rules: infinite unless the rules agree
    sym = gen.datalog(rng, recursive=False).rules[:2]
    extra = gen.datalog(rng, recursive=False).rules[:1]
    S1 = conv.to_program(ra + sym); S2 = conv.to_program(rb + [ref_variant(rng, r) for r in sym])
    if srn != 'Float': S1, S2 = S1.lift_semiring(conv.SR[srn]), S2.lift_semiring(conv.SR[srn])
    got = S1.metric(S2)
    if not any(r.body and len(r.body) > 1 and len({b.fn for b in r.body if hasattr(b, 'fn')}) < sum(1 for b in r.body if hasattr(b, 'fn')) for r in S1.rules):
        ctx.check(abs(float(got) - want) < 1e-9 or got == want, f'metric with equal symbolic rules is {got!r}, want {want!r}', a=source(ra + sym), b=source(rb + sym))
    ctx.nontrivial((source(ra), source(rb), srn))
    symbolic(ctx)


def symbolic(ctx):
    "Programs of symbolic rules with look-alikes: at distance zero exactly when the folded rules agree."
    rng = ctx.rng
    vs = [V('X'), V('Y'), V('Z')]
    def atom(f, n): return (f,) + tuple(rng.choice(vs) for _ in range(n))
    pool = []
    for _ in range(rng.randint(1, 3)):
        fs = rng.sample([('f', 2), ('g', 2), ('h', 1)], rng.randint(1, 3))
        body = [atom(f, n) for f, n in fs]
        head = ('p', *rng.sample(vs, rng.randint(0, 2)))
        pool.append((head, body))
        if rng.random() < .7:                     # a look-alike: the same subgoals, other sharing
            pool.append((head, [(y[0],) + tuple(rng.sample(y[1:], len(y) - 1)) for y in body]))
    def pick(n): return [(h, [rng.choice([1, 2, .5])] + list(b) if rng.random() < .4 else list(b)) for h, b in (rng.choice(pool) for _ in range(n))]
    A = pick(rng.randint(0, 4))
    B = list(A)
    u = rng.random()
    if u < .3 and B: B.pop(rng.randrange(len(B)))
    elif u < .6: B += pick(1)
    elif u < .7: B = pick(len(A))
    B = [ref_variant(rng, (h, rng.sample(b, len(b)))) for h, b in B]
    rng.shuffle(B)
    def folded(rs):
        out = {}
        for h, b in rs:
            c = 1
            for y in b: c = c * y if y.__class__ is not tuple else c
            k = ref.canon(('r', h) + tuple(sorted((y for y in b if y.__class__ is tuple), key=lambda y: y[0])))
            out[k] = out.get(k, 0) + c
        return out
    a, b = folded(A), folded(B)
    want = 0 if a.keys() == b.keys() and all(abs(a[k] - b[k]) < 1e-9 for k in a) else math.inf
    P, Q = conv.to_program(A), conv.to_program(B)
    for x, y in ((P, Q), (Q, P)):
        got = x.metric(y)
        ctx.check(got == want, f'distance of two programs of symbolic rules is {got!r}, want {want!r}', a=source(A), b=source(B))
    ctx.event('symbolic_metrics'); ctx.event('symbolic_zero', want == 0)


def ref_variant(rng, r):
    m = {}
    return (ref.rename(r[0], m), [ref.rename(y, m) for y in r[1]])


def run_case(ctx):
    meanings(ctx) if ctx.rng.random() < .6 else metrics(ctx)
