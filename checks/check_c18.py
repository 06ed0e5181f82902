"""C18: every fold the system accepts preserves the meaning of the program."""
import ref, gen, conv, xform, foldwork
from common import *
from dyna import Program, Rule
from ref import V
from dyna.transform.fold import Fold

RULE = ('random programs with foldable bodies (chains, grammars, recursive cousins, distributed multi-rule definitions), random definitions, and every '
        'fold the system proposes: hook on random subgoal subsets, reversible_megafolds, megafolds / megafolds_unit (safety measure), basic_fold on '
        'hand-made proposals, folds by an own recursive rule, eurekas, trivial renamings of a definition, also judged for being accepted exactly when the map is a renaming; up to 3 accepted steps in a row; each accepted program is '
        'evaluated by the reference evaluator on random data against the original. Distinct by program and accepted fold')
CASES = (3900, 25000)
REQUIRED = {'accepted': 900, 'dbs': 1800, 'hook': 100, 'reversible': 200, 'measure': 150, 'rejected': 300, 'rename_accepted': 60, 'rename_rejected': 20}
ASSUMPTIONS = ['reference evaluator']
WALL = (60, 700)


def renamed(ctx, rng):
    "one item defined by several rules against a renamed (and sometimes changed) definition"
    X, Y, Z, W = [V(n) for n in 'XYZW']
    pool = [('u0', X), ('u0', Y), ('u1', X, Y), ('u1', Y, Z), ('u1', Z, X), ('u1', Y, W), ('u2', ('s', X), Z), ('u3',), .5, .25, 2]
    n = rng.choice([0, 1, 2, 2])
    rules = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        b = rng.sample(pool, rng.choice([1, 2, 2, 3]))
        vs = list(ref.variables([y for y in b if y.__class__ is tuple]))
        if rng.random() < .1: vs = vs + [1, ('k',)]
        if len(vs) < n: continue
        h = ('f',) + tuple(rng.sample(vs, n) if rng.random() < .85 else [rng.choice(vs) for _ in range(n)])
        rules.append((h, b))
        if rng.random() < .15: rules.append((h, list(b)))
    if not rules: ctx.skip('empty')
    vsets = [len(set(ref.variables(h))) for h, b in rules]
    perm = list(range(1, n + 1)); rng.shuffle(perm)
    style = rng.choice(['args', 'args', 'nested', 'pair'])
    def head(h):
        args = tuple(h[i] for i in perm)
        if style == 'nested': args = tuple(('q', a) if k % 2 else a for k, a in enumerate(args))
        if style == 'pair': args = (('t',) + args,)
        return ('g',) + args
    other = [(head(h), rng.sample(b, len(b))) for h, b in rules]
    rng.shuffle(other)
    exact = True
    if rng.random() < .55:
        exact = False
        k = rng.randrange(len(other)); h, b = other[k]
        u = rng.random()
        if u < .2: other.pop(k) if len(other) > 1 else other.append((h, list(b)))
        elif u < .35: other.append((h, list(b)))
        elif u < .55 and n: other = [(('g',) + h[2:], b) for h, b in other] if style != 'pair' else [(h[:1], b) for h, b in other]
        elif u < .7: other[k] = (h, b + [rng.choice(pool)])
        elif u < .8: other[k] = (h, [.125 if y.__class__ is not tuple else y for y in b])
        else:
            vs = list(ref.variables([h] + [y for y in b if y.__class__ is tuple]))
            if len(vs) > 1:
                x, y = rng.sample(vs, 2)
                m = {x: y} if rng.random() < .5 else {x: y, y: x}
                other[k] = ref.apply(m, h), [ref.apply(m, z) if z.__class__ is tuple else z for z in b]
    fresh = lambda rs: [(ref.rename(h, m := {}), [ref.rename(y, m) for y in b]) for h, b in rs]
    rules, other = fresh(rules), fresh(other)
    edb = {(y[0], len(y) - 1) for h, b in rules + other for y in b if y.__class__ is tuple}
    p = gen.Prog(rules, edb, [('f', n)], gen.domain(rng), gen.w_small, ('rename',))
    src = source(rules)
    ctx.notes.update(program=src, definition=source(other))
    P, D = conv.to_program(rules), conv.to_program(other)
    got = P.trivial_rename(D)
    ctx.event('rename_accepted', got is not None); ctx.event('rename_rejected', got is None)
    if got is None:
        if exact and n == len(set(vsets)) * min(vsets) and all(len(set(h[1:])) == n == k for (h, b), k in zip(rules, vsets)):
            ctx.fail('a renamed definition is not recognized')
        return
    new = foldwork.plain(got)
    ctx.check(len(new) == 1, 'the renaming consists of several rules', renaming=source(new))
    xform.meaning(ctx, rules, other + new, p, ref.SEMIRINGS['Float'], {('f', n)}, f'trivial renaming {ref.show_rule(new[0])}', ndb=2)
    ctx.nontrivial((src, source(other)))


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < .15: return renamed(ctx, rng)
    p = foldwork.prog(rng)
    if rng.random() < .4: foldwork.distribute(rng, p)
    if len(p.rules) > 9: ctx.skip('large')
    srn = rng.choice(['Float', 'Float', 'Float', 'Boolean'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    steps = []
    ctx.notes.update(program=src, steps=steps, semiring=srn)
    P = xform.live(p, rng=rng, semiring=srn)
    defs_rules = []
    if rng.random() < .6:
        for k in range(rng.choice([1, 1, 2])):
            d = foldwork.definition(rng, p.rules, f'd{k}')
            if d: defs_rules += d
    Q = P
    if defs_rules:
        D = conv.to_program(lift_rules(defs_rules, srn))
        Q = P.define(D.lift_semiring(conv.SR[srn]) if srn != 'Float' else D)
    base = before + lift_rules(defs_rules, srn)
    sigs = xform.functors(base)
    root = Q
    acc = 0
    for step in range(rng.choice([1, 1, 2, 3])):
        how = rng.choice(['hook', 'reversible', 'reversible', 'measure', 'basic', 'eurekas', 'unit', 'reversible_anc'])
        got = []
        if how == 'hook':
            opts = [i for i, r in enumerate(Q.rules) if len(r.body) >= 1]
            if not opts: continue
            i = rng.choice(opts)
            n = len(Q.rules[i].body)
            js = sorted(rng.sample(range(n), rng.randint(1, n)))
            if rng.random() < .3 and len(js) > 1: rng.shuffle(js)
            try:
                got = [Q.hook(i, js)]; ctx.event('hook')
            except (ValueError, AssertionError):
                ctx.event('rejected'); continue
            label = ('hook', i, js)
        elif how == 'eurekas':
            try: got = list(Q.to_collection().eurekas())[1:]
            except (ValueError, AssertionError): ctx.event('rejected'); continue
            rng.shuffle(got); got = got[:1]
            label = ('eurekas',)
        elif how == 'reversible':
            got = list(Q.reversible_megafolds(skip_trivial=rng.random() < .7)); ctx.event('reversible', len(got))
            label = ('reversible',)
        elif how == 'reversible_anc':
            anc = rng.choice(list(Q.lineage()))
            got = list(Q.reversible_megafolds(defs=anc)); ctx.event('reversible', len(got))
            label = ('reversible', 'ancestor')
        elif how in ('measure', 'unit'):
            anc = rng.choice(list(Q.lineage()) + [None])
            all_ = list(Q.partial_megafolds(defs=anc, skip_trivial=rng.random() < .7))
            rng.shuffle(all_)
            for c in all_[:6]:
                try: ok = c.safe_by_smt if how == 'measure' else c.safe_by_unit
                except AssertionError: ok = False
                if ok: got.append(c); ctx.event('measure')
                else: ctx.event('rejected')
            label = (how,)
        else:
            # proposals by hand: fold rule k by rule d (possibly itself), then ask basic_fold
            props = list(Q.fold_proposals(Q.fresh(), skip_trivial=False))
            rng.shuffle(props)
            for r in props[:4]:
                n = len(Q)
                S = set(rng.sample(range(n), min(n, rng.choice([1, 1, 2]))))
                same = {k for k, x in enumerate(Q.rules) if x.head.fn == r.head.fn} if hasattr(r.head, 'fn') else set()
                if same and rng.random() < .7: S = set(rng.sample(sorted(same), rng.randint(1, len(same))))
                try:
                    got.append(Q.basic_fold(r, r.j, S)); ctx.event('basic')
                except (ValueError, AssertionError): ctx.event('rejected')
            label = ('basic',)
        got = [g for g in got]
        rng.shuffle(got)
        for c in got[:3]:
            after = foldwork.plain(c)
            ctx.event('accepted')
            lab = label + (str(getattr(c, 'name', ''))[:80],)
            xform.meaning(ctx, base, after, p, sr, sigs, f'accepted fold {lab} after {steps}', ndb=2, lift=lambda f: lift_rules(f, srn), max_iter=60, slow=50)
            acc += 1
            ctx.nontrivial((src, ref.show_program(after)))
        if got:
            Q = got[0]; steps.append(label + (str(getattr(Q, 'name', ''))[:80],))
            if len(Q) > 12: break
        if rng.random() < .3:
            opts = [(i, j) for i, r in enumerate(Q.rules) for j, y in enumerate(r.body) if Q.safe_inline(y) and not Q.is_builtin(y)]
            if opts:
                i, j = rng.choice(opts); N = Q.unfold(i, j)
                if len(N) <= 12: Q = N; steps.append(('unfold', i, j))
    if acc: ctx.sample({'program': src.split('\n'), 'definitions': ref.show_program(defs_rules), 'steps': steps})
