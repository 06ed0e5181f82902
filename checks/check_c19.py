"""C19: speculation (slash) preserves the meaning of a program."""
import ref, gen, conv, xform
from common import *
from dyna import Program

RULE = ('random programs (grammars, chains, recursive and mutually recursive datalog, heads and divisors with constants, repeated variables and structured '
        'terms, left/right/non-linear recursion, several semirings), random divisors (items of the program, generalizations, specializations, a bare variable) and '
        'random legal position maps; the transformed program (and its tidied / pruned form) is evaluated by the '
        'reference evaluator on random data against the original. Distinct by program, divisor and positions')
CASES = (2250, 30000)
REQUIRED = {'dbs': 2800, 'nonempty_dbs': 2500, 'slashed': 1100, 'tidied': 300, 'pruned': 300, 'twice': 80}
ASSUMPTIONS = ['reference evaluator (with the documented meaning of $not_matches: succeeds iff the term does not unify with the pattern)']
WALL = (60, 700)


def prog(rng):
    X, Y, Z, U = [V(n) for n in 'XYZU']
    u = rng.random()
    if u < .25: return rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_chain])(rng)
    if u < .45:
        k = rng.choice([.1, .2, .3]); c = rng.choice([1, 2, ('a',)])
        shapes = [
            [(('a',), [('b',), ('c',)]), (('a',), [('c',)]), (('b',), [('u0',)]), (('c',), [('u1',), ('u0',), ('x',)]), (('c',), [('u1',), ('c',), k]), (('x',), [('u2',)])],
            [(('a',), [('u0',)]), (('a',), [('a',), ('u1',), k])],
            [(('a',), [('a',), ('a',), .1]), (('a',), [('u0',), .3]), (('g',), [('a',), ('u1',)])],
            [(('p', X, Z), [('p', X, Y), ('u0', Y, Z), k]), (('p', X, Y), [('u1', X, Y)]), (('g', X), [('p', X, c)])],
            [(('p', X), [('q', X), ('u0', X)]), (('q', X), [('p', X), k]), (('q', c), [('u1', X)]), (('q', X), [('u2', X)])],
            [(('p', X, X), [('u0', X)]), (('p', X, c), [('u1', X)]), (('p', X, Y), [('p', Y, X), k]), (('g', X), [('p', X, Y), ('u0', Y)])],
            [(('p', ('s', X)), [('q', X)]), (('p', c), [('u0', c)]), (('q', X), [('u0', X)]), (('g', X), [('p', X), ('u1', X)]), (('g', X), [('p', ('s', X))])],
            [(('p', X, U), [('q', X)]), (('q', X), [('u0', X, Y), ('p', Y, X), k]), (('q', X), [('u1', X)]), (('g', X), [('p', X, Y), ('u1', Y)])],
            [(('e',), [2]), (('e',), [1]), (('e',), [('e',), ('u0',), k])],
            [(('s1', X), [('n', X, Y), ('v', Y)]), (('n', X, Y), [('n', X, Z), ('u0', Z, Y), k]), (('n', X, Y), [('u1', X, Y)]), (('v', X), [('v', X), .2]), (('v', X), [('u2', X)])],
        ]
        rules = rng.choice(shapes)
        rules = list(rules); rng.shuffle(rules)
        heads = {(h[0], len(h) - 1) for h, b in rules}
        edb = {(y[0], len(y) - 1) for h, b in rules for y in b if y.__class__ is tuple} - heads
        dom = gen.domain(rng)
        if c not in dom: dom = dom[:3] + [c]
        return gen.Prog(rules, edb, [sorted(heads)[rng.randrange(len(heads))]], dom, gen.w_small, ('shape',))
    return gen.datalog(rng, nonground=rng.random() < .2, functions=rng.random() < .3, builtins=rng.random() < .15, maxarity=2, n_idb=rng.randint(1, 3))


def divisor(rng, p):
    "an item pattern"
    its = [y for h, b in p.rules for y in [h] + b if y.__class__ is tuple and not ref.is_builtin(y)]
    d = ref.rename(rng.choice(its))
    u = rng.random()
    if u < .4: return d
    if u < .7: return gen.sig_term(d[0], len(d) - 1)
    if u < .78: return V('X')
    args = list(d[1:])
    for i in range(len(args)):
        if rng.random() < .5: args[i] = rng.choice([V('N'), V('N1'), rng.choice(p.dom or [1])])
    return (d[0],) + tuple(args)


def legal(x, y):
    return not ref.unifiable(x, y) or ref.covers(x, y)


def positions(rng, p, x):
    pos = {}
    consts = rng.random() < .15
    builtins = rng.random() < (.5 if x.__class__ is V else .1)
    for i, (h, b) in enumerate(p.rules):
        js = [j for j, y in enumerate(b) if (y.__class__ is tuple and (builtins or not ref.is_builtin(y)) or (consts and y.__class__ is not tuple)) and legal(x, y)]
        pref = [j for j in js if b[j].__class__ is tuple and ref.covers(x, b[j])]
        if pref and rng.random() < .5: js = pref
        if js and rng.random() < .75: pos[i] = rng.choice(js)
    return pos


def run_case(ctx):
    rng = ctx.rng
    p = prog(rng)
    if len(p.rules) > 9: ctx.skip('large')
    srn = rng.choice(['Float', 'Float', 'Float', 'Boolean', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    x = divisor(rng, p)
    pos = positions(rng, p, x)
    ctx.notes.update(program=src, divisor=ref.show(x), positions=pos, semiring=srn)
    P = xform.live(p, rng=rng, semiring=srn)
    sigs = xform.functors(before)
    try:
        S = P.slash(conv.to_term(x, {}), positions=pos)
    except AssertionError:
        ctx.event('refused'); ctx.skip('refused')
    ctx.event('slashed')
    lift = lambda f: lift_rules(f, srn)
    after = conv.from_program(S)
    what = f'slash({ref.show(x)}, {pos})'
    n = xform.meaning(ctx, before, after, p, sr, sigs, what, ndb=2, lift=lift, max_iter=60, slow=50)
    if n and pos:
        ctx.nontrivial((src, ref.show(x), tuple(pos.items())))
        ctx.sample({'program': src.split('\n'), 'divisor': ref.show(x), 'positions': {str(k): v for k, v in pos.items()}, 'transformed': ref.show_program(after).split('\n')[:12]})
    if rng.random() < .3:
        try: T = S.tidy()
        except (AssertionError, ValueError): ctx.event('tidy_refused'); T = None
        if T is not None:
            ctx.event('tidied')
            xform.meaning(ctx, before, conv.from_program(T), p, sr, set(p.outputs), what + '.tidy()', ndb=1, lift=lift, max_iter=60, slow=50)
    if rng.random() < .3:
        try: T = S.prune_fast()
        except (AssertionError, NotImplementedError): T = None
        if T is not None:
            ctx.event('pruned')
            xform.meaning(ctx, before, conv.from_program(T), p, sr, set(p.outputs), what + '.prune_fast()', ndb=1, lift=lift, max_iter=60, slow=50)
    if rng.random() < .1 and len(S) < 16:
        # slash the result again
        q = gen.Prog(after, p.edb, p.outputs, p.dom, p.weights)
        q.rules = [r for r in after]
        x2 = divisor(rng, p)
        pos2 = {}
        for i, (h, b) in enumerate(after):
            js = [j for j, y in enumerate(b) if y.__class__ is tuple and not ref.is_builtin(y) and legal(x2, y)]
            if js and rng.random() < .5: pos2[i] = rng.choice(js)
        try: T = S.slash(conv.to_term(x2, {}), positions=pos2)
        except AssertionError: return
        ctx.event('twice')
        xform.meaning(ctx, before, conv.from_program(T), p, sr, sigs, what + f'.slash({ref.show(x2)}, {pos2})', ndb=1, lift=lift, max_iter=60, slow=50)
