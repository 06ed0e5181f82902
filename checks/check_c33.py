"""C33: the fold/unfold safety measure accepts only equivalent programs."""
import copy, warnings
import ref, gen, conv, xform, foldwork
import check_c19
from common import *
from dyna import Program, fresh, unifies
from ref import V

RULE = ('random programs and random sequences of one to five define / unfold / fold steps in which nothing is filtered by safety: unfolds by the own or an ancestor\'s rules (any branch of '
        'the history), folds proposed by partial_megafolds against the program itself, an ancestor or a sibling, hand-made folds (including self-folds); a quarter of the cases explores many branches from one tiny program; some histories start with a speculation (slash, left-corner) or have one in the middle, so that folds and unfolds use definitions that lack the items it introduced; after every step both verdicts are '
        'taken, and a program declared safe is evaluated by the reference evaluator on random data against the original. Rejected programs are evaluated too, to count how many were '
        'really inequivalent. Distinct by program and steps')
CASES = (1850, 40000)
REQUIRED = {'verdicts': 1500, 'safe': 450, 'unsafe': 250, 'dbs': 1200, 'unfold': 450, 'fold': 400, 'define': 300, 'rejected_inequivalent': 400, 'wrong_only_by_definition': 60}
ASSUMPTIONS = ['reference evaluator']
WALL = (60, 700)


def speculate(rng, p, P):
    "a speculation of the program; items without rules are then unfolded away"
    x = check_c19.divisor(rng, p)
    pos = check_c19.positions(rng, p, x)
    try: N = P.slash(conv.to_term(x, {}), positions=pos) if rng.random() < .5 else P.lct(positions=pos, x=conv.to_term(x, {}))
    except AssertionError: return
    out = [(N, f'{type(N).__name__.lower()}({ref.show(x)}, {pos})')]
    while rng.random() < .93:
        N = out[-1][0]
        dead = [(i, j) for i, r in enumerate(N.rules) for j, y in enumerate(r.body) if getattr(y, 'fn', None) == '/' and not any(unifies(fresh(y), fresh(s.head)) for s in N.rules)]
        if not dead: break
        i, j = rng.choice(dead)
        out.append((N.unfold(i, j), f'unfold({i},{j},defs=own)'))
    return out


def late(rng, p, Q):
    "a speculation of a program in the middle of a history"
    q = copy.copy(p); q.rules = foldwork.plain(Q)
    x = check_c19.divisor(rng, q)
    pos = check_c19.positions(rng, q, x)
    try: N = Q.slash(conv.to_term(x, {}), positions=pos) if rng.random() < .7 else Q.lct(positions=pos, x=conv.to_term(x, {}))
    except AssertionError: return
    return N, f'{type(N).__name__.lower()}({ref.show(x)}, {pos})', None


def step(ctx, rng, Q, pool, force, p, k, srn, slashed=False):
    how = rng.choice(['unfold', 'unfold', 'fold', 'fold', 'fold', 'manual', 'define'] if not slashed else ['unfold', 'fold', 'manual', 'manual', 'manual', 'define'])
    if how == 'define':
        d = foldwork.definition(rng, [r for r in p.rules if r[1]] if rng.random() < .5 else foldwork.plain(Q), f'd{k}')
        if not d: return
        N = Q.define(conv.to_program(d) if srn == 'Float' else conv.to_program(lift_rules(d, srn)).lift_semiring(conv.SR[srn]))
        return N, f'define({"; ".join(map(ref.show_rule, d))})', d
    defs = rng.choice([None, None, Q, rng.choice(pool)])
    dn = 'own' if defs is None or defs is Q else pool.index(defs)
    if force is not None:
        defs = force; dn = [x is defs for x in pool].index(True)
        if how != 'fold': how = 'unfold'
    if how == 'unfold':
        D = defs if defs is not None else Q
        opts = [(i, j) for i, r in enumerate(Q.rules) for j, y in enumerate(r.body) if not Q.is_const(y) and D.safe_inline(y) and not Q.is_builtin(y)]
        if not opts: return
        if force is not None:
            # subgoals whose definition that branch changed
            fn = lambda y: getattr(y, 'fn', None)
            back = lambda i, j: any(fn(d.head) == fn(Q.rules[i].body[j]) != fn(Q.rules[i].head) and any(fn(z) == fn(Q.rules[i].head) for z in d.body) for d in D.rules)
            opts = [o for o in opts if back(*o)] or [(i, j) for i, j in opts if [r for r in D.rules if fn(r.head) == fn(Q.rules[i].body[j])] != [r for r in Q.rules if fn(r.head) == fn(Q.rules[i].body[j])]] or opts
        i, j = rng.choice(opts)
        return Q.unfold(i, j, defs=defs), f'unfold({i},{j},defs={dn})', None
    if how == 'fold':
        if len(Q) > 10: return
        opts = list(Q.partial_megafolds(defs=defs, skip_trivial=rng.random() < .5))
        if not opts: return
        N = rng.choice(opts)
        return N, f'fold({ref.show_rule(foldwork.plain(N)[N.i])}, S={sorted(N.S)}, defs={dn})', None
    if slashed and rng.random() < .7: defs = pool[slashed]; dn = slashed
    props = list(Q.fold_proposals(defs.fresh() if defs is not None else Q.fresh(), skip_trivial=False, skip_zero_width=not slashed or rng.random() < .4)) if len(Q) <= (16 if slashed else 10) else []
    if slashed and rng.random() < .7: props = [r for r in props if getattr(r.head, 'fn', None) in 'pqr']
    if not props: return
    r = rng.choice(props)
    same = [i for i, x in enumerate(Q.rules) if getattr(x.head, 'fn', None) == getattr(r.head, 'fn', None)]
    if not same: return
    S = set(rng.sample(same, rng.randint(1, len(same))))
    N = Q.manual_fold(r, r.j, S, defs=defs)
    if not N.partially_safe: return                       # compute_measure refuses these
    return N, f'manual({ref.show_rule(foldwork.plain(N)[N.i])}, S={sorted(S)}, defs={dn})', None


def tiny(rng, ground=False):
    "a few small items that can be folded into each other in many ways"
    X = V('X')
    arg = (X,) if rng.random() < .4 and not ground else ()
    atoms = [('u0',) + arg, ('u1',) + arg]
    heads = [(n,) + arg for n in 'pqr'[:rng.choice([2, 2, 3])]]
    rules = []
    body = [rng.choice(atoms)] + ([rng.choice([.5, 2.0])] if rng.random() < .3 else [])
    for h in heads:
        if rng.random() < .75: rules.append((h, list(body)))
        if rng.random() < .6 or not rules or rules[-1][0] != h:
            b = [rng.choice(heads + atoms), rng.choice([.1, .2])] if rng.random() < .7 else [rng.choice(atoms)] + rng.sample(atoms + [.5], 1)
            rules.append((h, b))
    if rng.random() < .4: rules.append((('g',), [heads[0], heads[-1]]))
    rng.shuffle(rules)
    rules = [(ref.rename(h, m := {}), [ref.rename(y, m) for y in b]) for h, b in rules]
    hs = {(h[0], len(h) - 1) for h, b in rules}
    edb = {(a[0], len(a) - 1) for a in atoms + heads} - hs
    return gen.Prog(rules, edb, [sorted(hs)[0]], gen.domain(rng), gen.w_small, ('tiny',))


def run_case(ctx):
    rng = ctx.rng
    warnings.simplefilter('ignore')
    u = rng.random()
    dense = u < .25
    slashed = 0 if u > .82 else None            # index of the speculated program
    p = tiny(rng, ground=slashed is not None) if dense or slashed is not None else foldwork.prog(rng)
    if slashed is None and not dense and rng.random() < .4: foldwork.distribute(rng, p)
    if len(p.rules) > 7: ctx.skip('large')
    srn = rng.choice(['Float', 'Float', 'Float', 'Boolean'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    base = lift_rules(p.rules, srn)
    src = source(p.rules)
    steps = []
    ctx.notes.update(program=src, steps=steps, semiring=srn)
    P = xform.live(p, rng=rng, semiring=srn)
    sigs = xform.functors(base)
    pool, bad, wrong, fine = [P], [], set(), {id(P)}
    defined = {}
    bases = {id(P): base}
    Q = P
    if slashed is not None:
        todo = speculate(rng, p, P)
        if not todo: ctx.skip('refused')
        slashed = len(todo)
    for k in range(14 if dense else 10 + slashed if slashed else rng.choice([1, 2, 2, 3, 4, 5])):
        if dense: Q = rng.choice(pool)
        if slashed and k >= slashed and len(pool) <= slashed: break           # one of its stages is too large
        if slashed and k > slashed and rng.random() < .3: Q = rng.choice(pool[slashed:])
        elif not slashed and rng.random() < .15: Q = rng.choice(pool)        # another branch of the history
        if not slashed and id(Q) in wrong and rng.random() < .6: Q = rng.choice([x for x in pool if id(x) not in wrong])
        force = None
        late_slash = slashed is None and k and len(pool) > 1 and rng.random() < (.12 if bad else .02)
        if late_slash: Q = rng.choice([x for x in bad if id(x) in wrong] or bad or pool)
        elif not slashed and bad and rng.random() < .35:
            # definitions from a branch of the history that lost something, on a program that is right
            force = rng.choice([x for x in bad if id(x) in wrong] or bad)
            near = [x for x in pool if id(x) in fine and x is getattr(force, 'parent', None)]
            Q = rng.choice(near if near and rng.random() < .5 else [x for x in pool if id(x) in fine])
        Q0 = Q
        if slashed and k < slashed: new = todo[k] + (None,); ctx.event('speculation', k == 0)
        elif late_slash: new = late(rng, p, Q); ctx.event('late_speculation')
        else: new = step(ctx, rng, Q, pool, force, p, k, srn, slashed)
        if new is None: continue
        N, label, d = new
        if dense and (len(N) > 7 or any(len(N) == len(x) and N == x and id(x) in fine and N.safe_by_unit for x in pool)): continue
        if slashed and k >= slashed and (len(N) > 16 or any(len(N) == len(x) and N == x for x in pool)): continue
        if not slashed and len(N) > (12 if not late_slash else 30) or sum(len(r.body) for r in N) > 40: continue
        mine = f'{len(pool)}: {pool.index(Q)} -> {label}'
        steps.append(mine)
        ctx.event(label.split('(')[0] if label[:6] != 'manual' else 'fold')
        bases[id(N)] = bases[id(Q)] + (lift_rules(d, srn) if d else [])
        pool.append(N)
        Q = N
        if d: continue
        unit, smt = bool(N.safe_by_unit), bool(N.safe_by_smt)
        ctx.event('verdicts')
        ctx.check(smt or not unit, 'the unit measure accepts a program the symbolic one rejects', steps=list(steps))
        after = foldwork.plain(N)
        b = bases[id(N)]
        sg = sigs                       # the original items; a program equal to the original is safe even if a definition was lost
        lift = lambda f: lift_rules(f, srn)
        if smt or unit:
            fine.add(id(N))
            ctx.event('safe'); ctx.event('safe_unit', unit)
            xform.meaning(ctx, b, after, p, sr, sg, f'declared safe (symbolic={smt}, unit={unit}) after {steps}', ndb=2, lift=lift, max_iter=60, slow=50)
            ctx.nontrivial((src, tuple(steps)))
        else:
            ctx.event('unsafe')
            bad.append(N)
            try: xform.meaning(ctx, b, after, p, sr, sg, '', ndb=1, lift=lift, max_iter=60, slow=50)
            except xform.Violation: ctx.event('rejected_inequivalent'); ctx.event('wrong_only_by_definition', id(getattr(N, 'defs', None)) in wrong and id(Q0) in fine); wrong.add(id(N))
    if not steps: ctx.skip('no step')
    ctx.sample({'program': src.split('\n'), 'steps': list(steps)})
