"""C09: anti-unification and the term-set containers."""
import ref
from ref import V
from common import *
from terms import *
from dyna.term import generalizer, covers, same, DisjointEstimate, MostGeneralSet, NoDupsSet, Subst, fresh

RULE = ('random pairs for anti-unification (repeated disagreement pairs, shared variables, nested) against an independent '
        'least-general-generalization; random insertion sequences (2-14 terms, mixtures of patterns over few functors, inserted '
        'in random order) into DisjointEstimate / MostGeneralSet / NoDupsSet with invariants checked after every insertion; '
        'distinct by canonical input')
CASES = (20050, 200000)
REQUIRED = {'lgg': 15000, 'set_ops': 45000, 'merges': 18000, 'finds': 90000}
ASSUMPTIONS = ['reference matcher and anti-unifier']
WALL = (60, 600)


def lgg(x, y, t):
    if x.__class__ is tuple and y.__class__ is tuple and len(x) == len(y) and x[1] == y[1]:
        return x[:2] + tuple(lgg(a, b, t) for a, b in zip(x[2:], y[2:]))
    if x.__class__ not in (tuple, V) and y.__class__ not in (tuple, V) and x == y: return x
    k = (key(x), key(y))
    if k not in t: t[k] = V()
    return t[k]


def key(x):
    if x.__class__ is V: return ('v', id(x))
    if x.__class__ is tuple: return ('t',) + tuple(key(a) for a in x)
    return ('c', x)


def generalization(ctx):
    rng = ctx.rng
    A = [V(c) for c in 'XYZ'[:rng.randint(1, 3)]]
    B = A if rng.random() < .25 else [V(c) for c in 'UVW'[:rng.randint(1, 3)]]
    cs = rng.choice([[0, 1, 2], [0, 1, 'x', ('a',)], CONSTS])
    x = rt(rng, A, rng.randint(1, 4), 0, pv=rng.choice([.1, .3]), consts=cs)
    y = rng.choice([lambda: rt(rng, B, 3, 0, pv=.2, consts=cs), lambda: specialize(rng, x, B), lambda: mutate(rng, x, B),
                    lambda: mutate(rng, mutate(rng, specialize(rng, x, B), B), B), lambda: generalize(rng, x, B)])()
    if rng.random() < .3: x, y = ('f', x, x), ('f', y, rng.choice([y, mutate(rng, y, B)]))
    if rng.random() < .5: x, y = y, x
    m = {}
    lx, ly = live(x, m), live(y, m)
    ctx.notes.update(x=repr(x), y=repr(y))
    ex, ey = enc(x), enc(y)
    rx, ry = ref.rename(ex), ref.rename(ey)     # as sets: variables independent
    want = lgg(rx, ry, {})
    s1, s2 = Subst(), Subst()
    z = generalizer(lx, ly, s1, s2) if rng.random() < .5 else generalizer(lx, ly)
    ez = back(z, {})
    ctx.event('lgg')
    ctx.check(ref.match(ref.rename(ez), ex) is not None and ref.match(ref.rename(ez), ey) is not None,
              f'generalizer({x!r}, {y!r}) = {z!r} does not cover both')
    ctx.check(ref.variant(ez, want), f'generalizer({x!r}, {y!r}) = {z!r} is not least general: {want!r}')
    ctx.check(not boundvars(lx) and not boundvars(ly), 'generalizer bound a variable')
    if ref.variables(want): ctx.nontrivial(('g', ref.canon(('p', rx, ry))))


def patterns(rng):
    vs = [V(c) for c in 'XYZ']
    consts = rng.choice([[0, 1], [0, 1, 2, 'x'], [0, ('a',)]])
    sig = [('f', 1), ('f', 2), ('g', 2), ('h', 3)][:rng.randint(1, 4)]
    if rng.random() < .6: sig = sig[-1:]
    out = []
    for _ in range(rng.randint(2, 9)):
        f, n = rng.choice(sig)
        out.append((f,) + tuple(rng.choice(vs) if rng.random() < .35 else ('s', rt(rng, vs, rng.randint(0, 1), 0, consts=consts)) if rng.random() < .25
                                else rng.choice(consts) for _ in range(n)))
    if rng.random() < .04: out.append(rng.choice(vs))
    return out


def unifiable(a, b): return ref.unify(ref.rename(a), ref.rename(b), {}) is not None


def sets(ctx):
    rng = ctx.rng
    ps = patterns(rng)
    es = [enc(p) for p in ps]
    ctx.notes.update(terms=[repr(p) for p in ps])
    lv = [live(p, {}) for p in ps]
    probes = [enc(q) for q in patterns(rng)]
    kind = rng.choice(['disjoint', 'disjoint', 'general', 'nodups'])
    if kind == 'disjoint':
        D = DisjointEstimate()
        n = 0
        for i, t in enumerate(lv):
            D.add(t)
            ctx.event('set_ops')
            mem = [back(q, {}) for q in D]
            ctx.event('merges', int(len(mem) <= n)); n = len(mem)
            for a in range(len(mem)):
                for b in range(a):
                    ctx.check(not unifiable(mem[a], mem[b]), f'DisjointEstimate members overlap after adding {ps[:i+1]!r}: {D!r}')
            for e in es[:i+1]:
                ctx.check(any(ref.match(ref.rename(q), e) is not None for q in mem), f'{e!r} not covered by {D!r} after adding {ps[:i+1]!r}')
            # members are the anti-unification of the terms they cover: nothing more general than needed within one member
            for q in mem:
                inside = [e for e in es[:i+1] if ref.match(ref.rename(q), e) is not None]
                ctx.check(bool(inside), f'spurious member {q!r} in {D!r}')
                g = ref.rename(inside[0])
                for e in inside[1:]: g = lgg(g, ref.rename(e), {})
                ctx.check(ref.variant(g, q), f'member {q!r} is not the generalization {g!r} of the terms merged into it: {ps[:i+1]!r}')
        for e, t in list(zip(es, lv)):
            k = D.find(t)
            ctx.event('finds')
            ctx.check(ref.match(ref.rename(back(D.xs[k], {})), e) is not None, f'find({e!r}) returned member {k} of {D!r}')
            ctx.check(D.root(t) == D.xs[k], 'root')
        for e in probes:
            t = unenc_live(e)
            want = [i for i, q in enumerate(D) if unifiable(back(q, {}), e)]
            ctx.check(D.find_all(t) == want, f'find_all({e!r}) = {D.find_all(t)}, want {want} in {D!r}')
            ctx.check(D.roots(t) == [D.xs[i] for i in want], 'roots')
            ctx.event('finds')
            try: k = D.find(t)
            except KeyError: k = None
            ctx.check(k == (want[0] if len(want) == 1 else None), f'find({e!r}) = {k}, matching members {want} of {D!r}')
        ctx.check({ref.canon(back(r.head, {})) for r in D.to_program()} == {ref.canon(back(q, {})) for q in D}, 'to_program')
    elif kind == 'general':
        S = MostGeneralSet([], covers)
        for i, t in enumerate(lv):
            before = [back(q, {}) for q in S]
            r = S.add(t)
            ctx.event('set_ops')
            sub = any(ref.match(ref.rename(q), es[i]) is not None for q in before)
            ctx.check(bool(r) == sub, f'MostGeneralSet.add({ps[i]!r}) returned {r}; subsumed before: {sub}; {S!r}')
            ctx.event('merges', int(sub or len(S) <= len(before)))
            mem = [back(q, {}) for q in S]
            for a in range(len(mem)):
                for b in range(len(mem)):
                    if a != b: ctx.check(ref.match(ref.rename(mem[a]), mem[b]) is None, f'redundant member in {S!r} after {ps[:i+1]!r}')
            for e in es[:i+1]: ctx.check(any(ref.match(ref.rename(q), e) is not None for q in mem), f'{e!r} not covered by {S!r}')
            for q in mem: ctx.check(any(ref.variant(q, e) for e in es[:i+1]), f'member {q!r} was never added')
        for e in es + probes:
            t = unenc_live(e)
            want = [i for i, q in enumerate(S) if ref.match(ref.rename(back(q, {})), e) is not None]
            try: k = S.find(t)
            except KeyError: k = None
            ctx.event('finds')
            ctx.check((k in want) if want else k is None, f'MostGeneralSet.find({e!r}) = {k}, covering members {want} of {S!r}')
    else:
        S = NoDupsSet([], same)
        for i, t in enumerate(lv):
            dup = any(ref.variant(es[i], e) for e in es[:i])
            r = S.add(t)
            ctx.event('set_ops')
            ctx.event('merges', int(dup))
            ctx.check(bool(r) == dup, f'NoDupsSet.add({ps[i]!r}) returned {r} after {ps[:i]!r}')
            classes = {ref.canon(e) for e in es[:i+1]}
            ctx.check(len(S) == len(classes) and {ref.canon(back(q, {})) for q in S} == classes, f'NoDupsSet {S!r} after {ps[:i+1]!r}')
        for e in es + probes:
            want = [i for i, q in enumerate(S) if ref.variant(back(q, {}), e)]
            try: k = S.find(unenc_live(e))
            except KeyError: k = None
            ctx.event('finds')
            ctx.check(k == (want[0] if want else None), f'NoDupsSet.find({e!r}) = {k}, want {want}')
    ctx.check(not any(boundvars(t) for t in lv), 'a container operation left variables bound')
    ctx.nontrivial((kind, tuple(ref.canon(e) for e in es)))
    ctx.sample({'kind': kind, 'terms': [repr(p) for p in ps]})


def unenc_live(e):
    def un(x):
        return tuple(un(a) for a in x[1:]) if x.__class__ is tuple else x
    return live(un(e), {})


def run_case(ctx):
    for _ in range(2): generalization(ctx)
    sets(ctx)
