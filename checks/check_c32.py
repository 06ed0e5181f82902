"""C32: derivation mappings of unfold and fold are value-preserving bijections."""
from collections import Counter
import ref, gen, conv, xform, foldwork
from common import *
from dyna import Program, Derivation
from check_c31 import enumerate_ref, tree_of, norm_tree, show_tree, size, height, leaves, Many

RULE = ('random programs with their data as rules (no two equal rules; recursive, self-joins, several derivations per item) and chains of one to three unfold / fold steps (own rules, '
        'rules of earlier programs of the chain); every derivation of bounded height is mapped through each step, and between any two programs of the chain, and back; images are checked '
        'node by node against the rules of the target; with finitely many derivations the image is compared with an independent enumeration of the target. Distinct by program and chain')
CASES = (1250, 25000)
REQUIRED = {'mapped': 6000, 'unfold': 500, 'fold': 60, 'roundtrip': 5000, 'onto': 250, 'chains': 100}
ASSUMPTIONS = ['reference enumeration of derivations']
WALL = (60, 700)


def distinct(Q):
    rs = list(Q)
    return not any(rs[i].same(rs[j]) or rs[i] == rs[j] for i in range(len(rs)) for j in range(i))


def norm_rules(rules):
    return [(h, [float(y) if isinstance(y, (int, float)) and not isinstance(y, bool) else y for y in b]) for h, b in rules]


def key(t): return norm_tree(t)


def value(d, sr):
    v = sr.one
    vals = d.value()
    for y in (vals if isinstance(vals, tuple) else (vals,)): v = sr.times(v, conv.raw(y))
    return v


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < .5: p = foldwork.prog(rng)
    else: p = gen.datalog(rng, functions=rng.random() < .2, maxarity=2, n_idb=rng.randint(2, 3), recursive=rng.random() < .3)
    facts = p.facts(rng); rng.shuffle(facts)
    facts = facts[:rng.choice([3, 5, 7])]
    if any(y.__class__ is tuple and ref.is_builtin(y) for h, b in p.rules for y in b): ctx.skip('builtins')
    rules = p.rules + list({h: (h, b) for h, b in facts}.values())
    seen = {}
    for h, b in rules: seen.setdefault(ref.canon((h,) + tuple(sorted(map(str, b)))) if False else ref.show_rule((h, b)), (h, b))
    rules = list(seen.values())
    if any(not set(ref.variables(h)) <= set(ref.variables(b)) for h, b in rules): ctx.skip('not range-restricted')
    src = source(rules)
    P = conv.to_program(rules)
    if not distinct(P): ctx.skip('equal rules')
    T = rng.choice([3, 4, 5])
    sr = ref.Real
    chain = [P]
    steps = []
    ctx.notes.update(program=src, steps=steps)
    kind = rng.choice(['unfold', 'unfold', 'fold', 'mixed'])
    for _ in range(1 if kind == 'fold' else rng.choice([1, 1, 2, 3])):
        Q = chain[-1]
        how = kind if kind != 'mixed' else rng.choice(['unfold', 'unfold', 'fold'])
        if how == 'unfold':
            defs = Q if kind != 'mixed' or rng.random() < .5 else rng.choice(chain)
            opts = [(i, j) for i, r in enumerate(Q.rules) for j, y in enumerate(r.body) if not Q.is_const(y)]
            if not opts: break
            i, j = rng.choice(opts)
            N = Q.unfold(i, j, defs=defs) if defs is not Q else Q.unfold(i, j)
            steps.append(f'unfold({i},{j},defs={chain.index(defs)})')
        else:
            defs = rng.choice(chain)
            opts = list(Q.megafolds(defs)) if len(Q) <= 14 else []
            if not opts: continue
            N = rng.choice(opts)
            steps.append(f'fold(S={sorted(N.S)},i={N.i},j={N.j},defs={chain.index(defs)})')
        if not distinct(N) or len(N) > 30: break
        # only steps that keep the meaning have such a mapping
        if not N.safe_by_unit if hasattr(N, 'safe_by_unit') else False: break
        ctx.event(how)
        chain.append(N)
    if len(chain) < 2: ctx.skip('no step')
    if len(chain) > 2: ctx.event('chains')
    RR = [norm_rules(conv.from_program(Q)) for Q in chain]
    try:
        want, finite = enumerate_ref(RR[0], None)
    except (Many, RefLimit):
        finite = False
    if not finite:
        try: want, _ = enumerate_ref(RR[0], T)
        except (Many, RefLimit): ctx.skip('too many derivations')
    if not want or sum(size(t) for ts in want.values() for t in ts) > 1200: ctx.skip('too many derivations')
    D = list(P.derivations(None if finite else T, 'X'))
    cur = {norm_tree(tree_of(ctx, d, P, RR[0])): d for d in D}
    start = dict(cur)
    ctx.notes.update(finite=finite)
    for k in range(1, len(chain)):
        Q, N = chain[k-1], chain[k]
        ctx.notes['at'] = steps[k-1] if k <= len(steps) else None
        new = {}
        for t, d in cur.items():
            e = N.transform(d)
            te = norm_tree(tree_of(ctx, e, N, RR[k]))
            ctx.event('mapped')
            info = dict(source=show_tree(t), image=show_tree(te), program=ref.show_program(RR[k-1]), target=ref.show_program(RR[k]))
            ctx.check(te[1] == t[1], 'image derives another item', **info)
            ctx.check(abs(value(d, sr) - value(e, sr)) <= 1e-9 * max(1, abs(value(d, sr))), 'the value changed', **info)
            ctx.check(Counter(map(str, leaves(te))) == Counter(map(str, leaves(t))), 'the leaves changed', **info)
            ctx.check(te not in new, 'two derivations have the same image', **info)
            new[te] = e
            back = N.untransform(e)
            tb = norm_tree(tree_of(ctx, back, back.p, RR[k-1]))
            ctx.check(back.p is Q or back.p == Q, 'mapped back into another program', **info)
            ctx.check(tb == t, 'mapping back does not return the original', back=show_tree(tb), **info)
            ctx.event('roundtrip')
        if finite:
            try: w, fin = enumerate_ref(RR[k], None)
            except (Many, RefLimit): break
            if fin:
                w = {norm_tree(t) for ts in w.values() for t in ts}
                missing = w - set(new)
                ctx.check(not missing, 'a derivation of the target is not the image of any', missing=[show_tree(t) for t in list(missing)[:2]], program=ref.show_program(RR[k-1]), target=ref.show_program(RR[k]))
                ctx.check(not set(new) - w, 'an image is not a derivation of the target')
                ctx.event('onto')
        cur = new
    else:
        # end to end, both ways
        Z = chain[-1]
        if len(chain) > 2:
            for t, d in rng.sample(sorted(start.items(), key=lambda x: str(x[0])), min(6, len(start))):
                e = P.Transform(d, Z)
                te = norm_tree(tree_of(ctx, e, Z, RR[-1]))
                b = Z.Transform(e, P)
                tb = norm_tree(tree_of(ctx, b, P, RR[0]))
                ctx.check(tb == t, 'there and back through the chain does not return the original', source=show_tree(t), image=show_tree(te), back=show_tree(tb))
                ctx.check(te[1] == t[1] and Counter(map(str, leaves(te))) == Counter(map(str, leaves(t))), 'chain mapping changes item or leaves', source=show_tree(t), image=show_tree(te))
                ctx.event('end_to_end')
    ctx.nontrivial((src, tuple(steps)))
    ctx.sample({'program': src.split('\n'), 'steps': steps, 'derivations': len(start)})
