"""C21: rule elimination, linearization, binarization and hooks preserve meaning and have the promised shape."""
import ref, gen, conv, xform
from common import *
from check_c19 import prog as prog19
from dyna import Program

RULE = ('random programs (several uses of one item in a rule, self-joins, recursive and self-recursive rules, heads with constants / repeated / unused variables, '
        'structured terms, variables used as factors, several semirings); 1-3 random steps of elim / elim_p / linear_rule_elimination / linearize (ground and '
        'non-ground) / binarize / hook; the result is evaluated by the reference evaluator on random data against the original (outputs after an elimination, '
        'all items otherwise), and shape promises are judged structurally. Distinct by program and steps')
CASES = (2750, 40000)
REQUIRED = {'dbs': 2200, 'nonempty_dbs': 1900, 'elim': 700, 'linearize': 300, 'driver': 60, 'binarize': 250, 'hook': 250}
ASSUMPTIONS = ['reference evaluator']
WALL = (60, 700)


def prog(rng):
    X, Y, Z, U = [V(n) for n in 'XYZU']
    if rng.random() < .45: return prog19(rng)
    if rng.random() < .5:
        k = rng.choice([.1, .2]); c = rng.choice([1, 2, ('a',)])
        shapes = [
            [(('f', X), [('u0', X)]), (('f', ('s', X)), [('u1', X)]), (('g',), [('f', X), ('f', ('s', Y))]), (('g',), [('f', X), ('f', ('s', X))])],
            [(('f', X), [('f', ('s', X)), k]), (('f', X), [('u0', X)]), (('g', X), [('f', X)])],
            [(('f', X), [('u0', X)]), (('f', c), [('u1', X)]), (('g', X), [('f', X), ('f', Y), ('f', c)]), (('g', X), [('f', X), ('f', X)])],
            [(('t', X, X), [1]), (('t', X, Z), [('u0', X, Y), ('t', Y, Z), k]), (('g', X), [('u0', X, Y), ('t', X, Y)])],
            [(('t', X, U), [('u0', X, Y)]), (('t', X, Y), [('t', Y, X), k]), (('g', X), [('t', X, Y)]), (('g', c), [('t', X, c), ('t', c, X)])],
            [(('f', X), [1]), (('f', c), [('u0', X)]), (('g', X), [('f', X), ('u0', X)]), (('g',), [('f', c)])],
            [(('f', X), [1]), (('g',), [('f', X)]), (('h', X), [('f', X), ('f', Y), ('u0', Y)])],
            [(('a',), [('a',), k]), (('a',), [('u0',)]), (('a',), [('a',), ('a',), k]), (('g',), [('a',)])],
            [(('m', X, Z), [('m', X, Y), ('m', Y, Z), k]), (('m', X, Y), [('u0', X, Y)]), (('g', X), [('m', X, Y), ('m', X, Z), ('m', Y, Z)])],
            [(('f', X), [('g', X), k]), (('g', X), [('f', X), k]), (('g', X), [('u0', X)]), (('out', X), [('f', X), ('g', X)])],
            [(('f', X), [('=', X, c)]), (('f', X), [('u0', X), ('!=', X, c)]), (('g', X), [('f', X), ('f', Y)])],
            [(('f', X), [('u0', X, Y), Y]), (('g', X), [('f', X), ('u0', X, Y), Y])],
        ]
        rules = list(rng.choice(shapes)); rng.shuffle(rules)
        heads = {(h[0], len(h) - 1) for h, b in rules}
        edb = {(y[0], len(y) - 1) for h, b in rules for y in b if y.__class__ is tuple and not ref.is_builtin(y)} - heads
        vf = any(y.__class__ is V for h, b in rules for y in b)
        dom = gen.domain(rng, 'ints' if vf else None)
        if not vf:
            if c not in dom: dom = dom[:3] + [c]
            if rng.random() < .5: dom = dom[:2] + [('s', d) for d in dom[:2]]
        outs = [h for h in sorted(heads) if h[0] in ('g', 'h', 'out')] or [sorted(heads)[-1]]
        return gen.Prog(rules, edb, [rng.choice(outs)], dom, gen.w_small, ('shape',) + (('varfactor',) if vf else ()))
    p = gen.datalog(rng, nonground=rng.random() < .25, functions=rng.random() < .3, builtins=rng.random() < .2, maxarity=2, n_idb=rng.randint(1, 3), max_body=3)
    if rng.random() < .1: gen.add_varfactor(rng, p)
    return p


def overlapping(b, nonground):
    "pairs of ordinary subgoals one item can match"
    ys = [(i, y) for i, y in enumerate(b) if y.__class__ is tuple and not ref.is_builtin(y)]
    for n, (i, x) in enumerate(ys):
        for j, y in ys[n+1:]:
            if (nonground and (x[0], len(x)) == (y[0], len(y))) or ref.unify(x, y, {}) is not None: yield i, j


def run_case(ctx):
    rng = ctx.rng
    p = prog(rng)
    if len(p.rules) > 8: ctx.skip('large')
    srn = 'Float' if 'varfactor' in p.tags else rng.choice(['Float', 'Float', 'Float', 'Boolean', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    steps = []
    ctx.notes.update(program=src, steps=steps, semiring=srn, outputs=p.outputs)
    decl = rng.random() < .85
    P = xform.live(p, rng=rng, semiring=srn, with_decl=decl)
    if rng.random() < .05 and srn == 'Float' and len(p.rules) < 5:       # the same rule objects twice
        ins, outs = P.inputs, P.outputs
        P = P + P
        if decl: P.set_input_types(ins); P.set_output_types(outs)
        before = before + before
        ctx.event('doubled')
    lift = lambda f: lift_rules(f, srn)
    all_sigs = xform.functors(before)
    sigs = set(all_sigs)
    gone = []          # patterns of items whose value may have changed
    Q = P
    done = 0
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        how = rng.choice(['elim', 'elim', 'elim', 'elim', 'linear', 'elim_p', 'linearize', 'linearize', 'binarize', 'hook', 'hook'])
        n = len(Q)
        if n == 0: break
        i = rng.randrange(n)
        if how in ('elim', 'linear', 'elim_p') and decl and rng.random() < .8:
            ok = [k for k, r in enumerate(Q.rules) if not Q.is_output(r.head)]
            if ok: i = rng.choice(ok)
        head = conv.from_rule(Q.rules[i])[0]
        try:
            if how == 'elim': N = Q.elim(i)
            elif how == 'linear': N = Q.linear_rule_elimination(i)
            elif how == 'elim_p':
                if not decl: continue
                N = Q.elim_p(i)
            elif how == 'linearize':
                ng = rng.random() < .4
                driver = None
                if rng.random() < .35:
                    driver = conv.from_rule(rng.choice(Q.rules))[0]
                    if rng.random() < .4 and driver.__class__ is tuple: driver = pattern(rng, p.dom or [0], driver)
                N = Q.linearize(nonground=ng) if driver is None else Q.linearize(driver=conv.to_term(driver, {}))
            elif how == 'binarize': N = Q.binarize()
            else:
                m = len(Q.rules[i].body)
                if m < 2: continue
                js = sorted(rng.sample(range(m), rng.randint(1, m)))
                N = Q.hook(i, js)
        except (AssertionError, ValueError) as e:
            # the elimination that linearizes for itself has no reason to ask for that
            # (a variable as a factor may stand for any item, which linearization leaves alone)
            if how in ('elim', 'elim_p') and not any(y.__class__ is V for h, b in conv.from_program(Q) for y in b): ctx.check('call linearize' not in str(e), f'{how}({i}) did not linearize its program', program_before=source(conv.from_program(Q)))
            ctx.event('refused_' + how); continue
        steps.append((how, i))
        ctx.event(how if how not in ('linear', 'elim_p') else 'elim')
        if how in ('elim', 'linear', 'elim_p'):
            if decl:
                # an elimination that is accepted must not feed an output
                sigs = set(p.outputs)
                ctx.check(not any(ref.unifiable(gen.sig_term(f, k), head) for f, k in p.outputs) or head.__class__ is V,
                          f'{how}({i}) accepted although {ref.show(head)} is an output')
            gone.append(head)
        after = conv.from_program(N)
        if how == 'linearize':
            if driver is not None: ctx.event('driver')
            for r in after:
                if driver is None: ov = list(overlapping(r[1], ng))
                else:
                    ov = [y for y in r[1] if y.__class__ is tuple and not ref.is_builtin(y) and ref.unifiable(driver, y)]
                    if len(ov) <= 1: ov = []
                ctx.check(not ov, 'linearize left a rule with overlapping subgoals', rule=ref.show_rule(r), program_before=source(conv.from_program(Q)))
        if how == 'binarize':
            for r in after:
                ctx.check(len(r[1]) <= 2, 'binarize left a rule with more than two subgoals', rule=ref.show_rule(r), program_before=source(conv.from_program(Q)))
        if how in ('elim', 'linear') and not any(ref.unifiable(head, conv.from_rule(r)[0]) for k, r in enumerate(Q.rules) if k != i):
            ctx.event('sole_rule')
        if len(after) > 25: ctx.event('grown'); break
        want = set(sigs)
        hs = list(gone)
        if decl or not hs:
            k = xform.meaning(ctx, before, after, p, sr, want, f'{steps}', ndb=2, lift=lift, max_iter=60, slow=50)
        else:
            # no outputs declared: everything but the items that the eliminated rules define
            keep = lambda item: not any(ref.unifiable(h, item) for h in hs)
            k = xform.meaning(ctx, before, after, p, sr, want, f'{steps} (undeclared)', ndb=2, lift=lift, max_iter=60, slow=50, only=keep)
        done += bool(k)
        Q = N
    if done:
        ctx.nontrivial((src, tuple(steps)))
        ctx.sample({'program': src.split('\n'), 'steps': steps})
