"""C08: mgu, covering, variants, canonical forms and fresh copies agree with their set meaning."""
import ref
from ref import V
from common import *
from terms import *
from dyna.term import Subst, covers, same, canonicalize, fresh, deref, term_vars, is_ground, replace_in_expr, snap, is_var, flatten

RULE = ('random term pairs with disjoint variables, biased towards instances, generalizations, variants and one-symbol changes '
        '(nonlinear, nested, variable functors, constants of several types, subterms behind chains of bound variables); oracle: '
        'independent matcher/unifier; distinct by canonical pair; non-trivial = the pair has variables')
CASES = (90000, 600000)
REQUIRED = {'covers_true': 18000, 'covers_false': 7000, 'variants': 12000, 'mgu_ok': 16000, 'bound_chains': 7000}
ASSUMPTIONS = ['reference matcher; covers/same are specified for terms that share no variables (tests fix the shared case)']
WALL = (60, 600)


def run_case(ctx):
    rng = ctx.rng
    A = [V(c) for c in 'XYZW'[:rng.randint(1, 4)]]
    B = [V(c) for c in 'UVST'[:rng.randint(1, 4)]]
    wild = rng.choice([0, 0, .12])
    u = rng.random()
    y = rt(rng, B, rng.randint(1, 4), wild)
    if u < .3: x = generalize(rng, y, A); x = ref.apply({b: rng.choice(A) for b in B}, x) if wild == 0 else enc_free(x, B, A)
    elif u < .55:
        x = rt(rng, A, rng.randint(1, 4), wild)
        y = specialize(rng, x, B)
    elif u < .75:
        x = rt(rng, A, rng.randint(1, 4), wild)
        k = B[:] + [V('Q'), V('R'), V('P')]
        rng.shuffle(k)
        s = dict(zip(A, k))
        y = sub_all(x, s)
        if rng.random() < .3: y = mutate(rng, y, k)
        elif rng.random() < .4: y = generalize(rng, y, k, .1)
    else:
        x = rt(rng, A, rng.randint(1, 4), wild)
    m = {}
    chains = rng.random() < .25
    mk = (lambda t: live_bound(rng, t, m)) if chains else (lambda t: live(t, m))
    lx, ly = mk(x), mk(y)
    if chains: ctx.event('bound_chains')
    ex, ey = enc(x), enc(y)
    assert not (set(ref.variables(ex)) & set(ref.variables(ey))), (x, y)
    inv = inverse(m)
    ctx.notes.update(x=repr(x), y=repr(y), chains=chains)
    d = f'x={x!r} y={y!r}'
    # covering
    th = ref.match(ex, ey)
    got = covers(lx, ly)
    ctx.event('covers_true' if th is not None else 'covers_false')
    ctx.check(got == (th is not None), f'covers(x, y) = {got}, but y {"is" if th is not None else "is not"} an instance of x: {d}')
    s = Subst().cover(lx, ly)
    if s is not None and not chains:
        ctx.check(ref.ident(back(s(lx), inv), ey), f'cover substitution does not map x to y: {d}: {s!r}')
    ctx.check(covers(ly, lx) == (ref.match(ey, ex) is not None), f'covers(y, x) wrong: {d}')
    ctx.check(covers(lx, lx) and same(lx, lx), f'covers/same not reflexive: {d}')
    # sameness & canonical forms
    var = th is not None and ref.match(ey, ex) is not None
    ctx.event('variants', int(var))
    ctx.check(same(lx, ly) == var, f'same(x, y) = {same(lx, ly)}, variants: {var}: {d}')
    cx, cy = canonicalize(lx), canonicalize(ly)
    ctx.check((cx == cy) == var, f'canonical forms equal: {cx == cy}, variants: {var}: {d}')
    if var: ctx.check(hash(cx) == hash(cy), f'equal canonical forms, different hashes: {d}')
    ctx.check(ref.variant(back(cx, {}), ex), f'canonicalize(x) = {cx!r} is not a variant of x: {d}')
    ctx.check(canonicalize(cx) == cx, f'canonicalize not idempotent: {d}')
    # fresh, deref
    f = fresh(lx)
    ctx.check(ref.variant(back(f, {}), ex), f'fresh(x) = {f!r} is not a variant: {d}')
    ctx.check(not (set(map(id, term_vars(f))) & set(map(id, term_vars(lx)))), f'fresh(x) shares variables with x: {d}')
    ctx.check(not boundvars(f), f'fresh(x) contains bound variables: {d}')
    t2 = fresh(Term('pair', lx, ly))
    ctx.check(ref.variant(back(t2, {}), ('@', 'pair', ex, ey)), f'fresh of a pair does not keep sharing: {d}')
    t3 = fresh((lx, ly, lx))
    ctx.check(ref.variant(back(t3, {}), ('@t', ex, ey, ex)), f'fresh of a tuple does not keep sharing: {d}')
    dx = deref(lx)
    ctx.check(dx == lx and not boundvars(dx) and ref.ident(back(dx, inv), ex), f'deref(x) = {dx!r}: {d}')
    ctx.check(is_ground(lx) == ref.ground(ex), f'is_ground: {d}')
    ctx.check([inv[id(v)][0] for v in term_vars(lx)] == list(ref.variables(ex)), f'term_vars: {d}')
    ctx.check(is_var(lx) == (ex.__class__ is V), f'is_var: {d}')
    # most general unifier (may share variables here)
    if not chains:
        z = y if rng.random() < .6 else (rt(rng, A, 3, wild) if rng.random() < .6 else generalize(rng, x, A))
        lz = live(z, m); ez = enc(z); inv = inverse(m)
        r = ref.unify(ex, ez, {})
        s = Subst().mgu(lx, lz)
        ctx.check((s is not None) == (r is not None), f'mgu: {s!r}, unifiable: {r is not None}: x={x!r} z={z!r}')
        if s is not None:
            ctx.event('mgu_ok')
            vs = list(m)
            a = ref.canon(('t',) + tuple(back(s(m[v]), inv) for v in vs))
            b = ref.canon(('t',) + tuple(ref.resolve(v, r) for v in vs))
            ctx.check(a == b, f'mgu {s!r} is not most general: x={x!r} z={z!r}')
            ctx.check(s(lx) == s(lz), f's(x) != s(z): x={x!r} z={z!r}')
            ctx.check(s(s(lx)) == s(lx), f'mgu not idempotent: x={x!r} z={z!r}')
        ctx.check(not boundvars(lx) and not boundvars(lz), 'mgu/cover bound a variable in place')
        # extend a substitution incrementally
        s0 = Subst().mgu(lx, lz)
        w = rt(rng, A + B, 2)
        if s0 is not None:
            lw = live(w, m); inv = inverse(m)
            h = m[rng.choice(list(m))] if m and rng.random() < .7 else lx
            eh = back(h, inv)
            s1 = s0.copy().mgu(h, lw)
            r1 = ref.unify(eh, enc(w), r)
            ctx.check((s1 is not None) == (r1 is not None), f'extending an mgu: {s1!r} vs {r1}: x={x!r} z={z!r} h={eh!r} w={w!r}')
            if s1 is not None:
                vs = list(m)
                a = ref.canon(('t',) + tuple(back(s1(m[v]), inv) for v in vs))
                b = ref.canon(('t',) + tuple(ref.resolve(v, r1) for v in vs))
                ctx.check(a == b, f'extended mgu not most general: x={x!r} z={z!r} h={eh!r} w={w!r}')
    # replacing subterms
    if not chains and ex.__class__ is tuple:
        acc = set()
        sub = rng.choice(subs(x))
        def rep(t):
            if ref.ident(t, enc(sub)): return ('@', 'NEW')
            if t.__class__ is tuple: return tuple([t[0]] + [rep(a) for a in t[1:]])
            return t
        got = replace_in_expr(lx, live(sub, m), Term('NEW'))
        ctx.check(ref.ident(back(got, inverse(m)), rep(ex)), f'replace_in_expr(x, {sub!r}) = {got!r}: {d}')
    if ref.variables(ex) or ref.variables(ey):
        ctx.nontrivial(ref.canon(('p', ex, ey)))
        ctx.sample({'x': repr(x), 'y': repr(y), 'covers': th is not None, 'variants': var})


def subs(x):
    out = [x]
    if x.__class__ is tuple:
        for a in x[1:]: out.extend(subs(a))
    return out


def sub_all(x, s):
    if x.__class__ is V: return s.get(x, x)
    if x.__class__ is tuple: return tuple(sub_all(a, s) for a in x)
    return x


def enc_free(x, B, A):
    m = {}
    for i, b in enumerate(B): m[b] = A[i % len(A)]
    return sub_all(x, m)
