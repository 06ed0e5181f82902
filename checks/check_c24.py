"""C24: magic templates keep every demanded answer and add none."""
import ref, gen, conv, xform
from common import *
from dyna.exceptions import InstFault
from check_c22 import junk, patterns, matches

RULE = ('random Boolean programs (recursive, mutually recursive, repeated and partially bound subgoals, structured terms, nonground rules, built-ins; irrelevant rules) and '
        'programs that only terminate when driven by demand (append, reverse, plus, even/odd, countdown, bounded search); outputs are full patterns, patterns with constants, '
        'repeated variables or structure, or several; data as the declarations allow, given as separate facts. Original evaluated by the reference evaluator (depth-bounded for '
        'the demand-driven families); magic program evaluated by the reference and by the real solver. Distinct by program, outputs and data')
CASES = (700, 25000)
REQUIRED = {'dbs': 1200, 'nonempty_outputs': 700, 'magic_items': 4000, 'demand_driven': 100, 'restricted': 150, 'solver_runs': 500}
ASSUMPTIONS = ['reference evaluator', 'data respect the input declarations']
WALL = (60, 700)
CASE_LIMIT = (12, 30)
B = ref.BoolR
X, Y, Z, W, XS, YS, ZS, N, M = [V(x) for x in ['X', 'Y', 'Z', 'W', 'Xs', 'Ys', 'Zs', 'N', 'M']]


def lst(xs):
    t = ('$nil',)
    for x in reversed(xs): t = ('$cons', x, t)
    return t


def nat(n):
    t = ('z',)
    for _ in range(n): t = ('s', t)
    return t


def cons(a, b): return ('$cons', a, b)


def fam_demand(rng):
    "rules whose bottom-up fixpoint is infinite, or not range-restricted; finite under demand"
    at = gen.ATOMS[:3]
    rl = lambda n=3: lst([rng.choice(at) for _ in range(rng.randint(0, n))])
    app = [(('app', ('$nil',), YS, YS), []), (('app', cons(X, XS), YS, cons(X, ZS)), [('app', XS, YS, ZS)])]
    k = rng.choice(['append', 'split', 'reverse', 'plus', 'parity', 'count', 'member', 'nested'])
    inp = lambda t: [(('inp', t), [1])]
    if k == 'append':
        rules = app + [(('goal', Z), [('inp', X), ('inp', Y), ('app', X, Y, Z)])]
        facts = lambda r: [(('inp', rl()), [1]) for _ in range(r.randint(1, 3))]
    elif k == 'split':
        rules = app + [(('goal', X, Y), [('inp', Z), ('app', X, Y, Z)])]
        facts = lambda r: inp(rl(4))
    elif k == 'reverse':
        rules = [(('rev', ('$nil',), YS, YS), []), (('rev', cons(X, XS), YS, ZS), [('rev', XS, cons(X, YS), ZS)]),
                 (('goal', Z), [('inp', X), ('rev', X, ('$nil',), Z)])]
        facts = lambda r: inp(rl(3))
    elif k == 'plus':
        rules = [(('plus', ('z',), Y, Y), []), (('plus', ('s', X), Y, ('s', Z)), [('plus', X, Y, Z)])]
        rules += [rng.choice([(('goal', Z), [('inp', X), ('inp', Y), ('plus', X, Y, Z)]), (('goal', X, Y), [('inp', Z), ('plus', X, Y, Z)]),
                              (('goal', Y), [('inp', X), ('inp', Z), ('plus', X, Y, Z)])])]
        facts = lambda r: [(('inp', nat(r.randint(0, 4))), [1]) for _ in range(r.randint(1, 2))]
    elif k == 'parity':
        rules = [(('even', ('z',)), []), (('odd', ('s', X)), [('even', X)]), (('even', ('s', X)), [('odd', X)]),
                 (('goal', X), [('inp', X), ('even', X)]), (('goal2', X), [('inp', X), ('odd', X)])]
        facts = lambda r: [(('inp', nat(r.randint(0, 5))), [1]) for _ in range(r.randint(1, 2))]
    elif k == 'count':
        rules = [(('down', N), [('inp', N)]), (('down', M), [('down', N), ('>', N, 0), ('is', M, ('-', N, 1))]),
                 (('goal', N), [('down', N), ('ok', N)])]
        facts = lambda r: [(('inp', r.randint(0, 4)), [1])] + [(('ok', i), [1]) for i in range(5) if r.random() < .5]
    elif k == 'member':
        rules = [(('mem', X, cons(X, XS)), []), (('mem', X, cons(Y, XS)), [('mem', X, XS)]),
                 rng.choice([(('goal', X), [('inp', Y), ('mem', X, Y)]), (('goal', X), [('cand', X), ('inp', Y), ('mem', X, Y)]),
                             (('goal', X), [('inp', Y), ('inp', Z), ('mem', X, Y), ('mem', X, Z)])])]
        facts = lambda r: [(('inp', rl(3)), [1]) for _ in range(r.randint(1, 2))] + ([(('cand', a), [1]) for a in at if r.random() < .6])
    else:
        rules = app + [(('rev', ('$nil',), ('$nil',)), []), (('rev', cons(X, XS), Z), [('rev', XS, Y), ('app', Y, cons(X, ('$nil',)), Z)]),
                       (('goal', Z), [('inp', X), ('rev', X, Z)])]
        facts = lambda r: inp(rl(3))
    edb = {(h[0], len(h) - 1) for h, b in facts(rng)} | {('inp', 1)}
    for h, b in rules:
        for y in b:
            if y.__class__ is tuple and y[0] in ('cand', 'ok'): edb.add((y[0], 1))
    outs = sorted({(h[0], len(h) - 1) for h, b in rules if h[0].startswith('goal')})
    p = gen.Prog(rules, edb, outs, [], gen.w_int, (k, 'demand'))
    p.facts = facts
    return p


def covered(item, chart, dom):
    "every instance of `item` over a small universe (with fresh constants) is in the chart"
    vs = list(ref.variables(item))
    if any(ref.match(k, item) is not None for k in chart): return True
    if not vs or len(vs) > 3: return False
    return all(any(ref.match(k, g) is not None for k in chart) for g in ref.instances(item, list(dom)[:4] + ref.FRESH[:len(vs)]))


def run_case(ctx):
    rng = ctx.rng
    demand = rng.random() < .25
    if demand: p = fam_demand(rng); ctx.event('demand_driven')
    elif rng.random() < .25: p = rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_list, gen.fam_evenodd, gen.fam_chain])(rng)
    else:
        p = gen.datalog(rng, nonground=rng.random() < .3, functions=rng.random() < .3, builtins=rng.random() < .3, maxarity=2, n_idb=rng.randint(1, 4))
    if not demand and rng.random() < .3: junk(rng, p)
    p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, 'Boolean')
    src = source(p.rules)
    ins = [gen.sig_term(*s) for s in sorted(p.edb)]
    items = []
    if demand: outs = [gen.sig_term(*s) for s in p.outputs]
    else: outs = [q for s in p.outputs for q in patterns(rng, p, s, items, .6)]
    if not demand and rng.random() < .25:             # also some other functor
        s = rng.choice(sorted({(h[0], len(h) - 1) for h, b in p.rules}))
        outs += patterns(rng, p, s, items, .7)
    it, ot = '\n'.join(ref.show(q) + '.' for q in ins), '\n'.join(ref.show(q) + '.' for q in outs)
    ctx.notes.update(program=src, outputs=ot)
    P = conv.to_program(p.rules, inputs=it, outputs=ot).lift_semiring(conv.SR['Boolean'])
    T = P.magic_templates()
    mf = T.magic_fn
    after = conv.from_program(T)
    ctx.notes.update(magic=ref.show_program(after))
    mine = {(h[0], len(h) - 1) for h, b in p.rules} | set(p.edb)
    ctx.check(mf not in {f for f, n in mine}, 'the demand functor is already in use')
    # every answer rule waits for its demand
    for h, b in after:
        if h[0] != mf: ctx.check(any(y.__class__ is tuple and y[0] == mf for y in b), 'an answer rule is not guarded', rule=ref.show_rule((h, b)))
    for _ in range(2):
        facts = lift_rules(nonneg(p.facts(rng)), 'Boolean')
        depth = max([ref.depth(h) for h, b in facts], default=1) + (4 if demand else 0)
        kw = dict(keep=lambda k: ref.depth(k) <= depth) if demand else {}
        try: want = xform.evaluate(before + facts, B, max_iter=60, max_joins=40000, max_items=400, **kw)
        except (RefLimit, RefInst): ctx.event('skipped_before'); continue
        try: got = xform.evaluate(after + facts, B, max_iter=80, max_joins=60000, max_items=400)
        except RefInst: ctx.event('delayed_after'); continue
        except RefLimit as e: ctx.event('after_limit_' + str(e)); got = None
        charts = [('rules', got)]
        try:
            s = T._solver_for(None)(T + build(rng, facts, conv, 'Boolean'))
            s(budget=.4, throw=False)
            if not s.interrupted: charts.append(('solver', conv.solver_chart(s, B))); ctx.event('solver_runs')
        except InstFault: ctx.event('InstFault')
        for how, got in charts:
            if got is None: continue
            ctx.event('dbs')
            detail = dict(program=src, data=ref.show_program(facts), outputs=ot, magic=ref.show_program(after), original=ref.show_chart(want), derived=ref.show_chart(got))
            for q in outs:
                w, g = ref.query(want, ref.rename(q), B), ref.query(got, ref.rename(q), B)
                for k in w:
                    ctx.check(covered(k, g, p.dom), f'{how}: answer {ref.show(k)} is lost', **detail)
                for k in g:
                    ctx.check(covered(k, w, p.dom), f'{how}: {ref.show(k)} is not an answer', **detail)
                if w: ctx.event('nonempty_outputs')
            n = 0
            for k in got:
                if k.__class__ is tuple and (k[0], len(k) - 1) in mine:
                    n += 1
                    if demand and ref.depth(k) > depth - 1: continue
                    ctx.check(covered(k, want, p.dom), f'{how}: derives {ref.show(k)}, which the original does not', **detail)
            ctx.event('magic_items', n)
            if n < len([k for k in want if k.__class__ is tuple]): ctx.event('restricted')
            if any(ref.query(want, ref.rename(q), B) for q in outs):
                ctx.nontrivial((src, ot, ref.show_program(facts)))
                ctx.sample({'program': src.split('\n'), 'outputs': ot, 'magic': ref.show_program(after).split('\n')[:12]})
