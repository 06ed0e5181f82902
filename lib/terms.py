"""Random terms (with variable functors) for the term-level monitors, and live <-> reference conversion.

Reference form: functors are ordinary arguments of an '@' node, so variable functors need no special case."""
import ref
from ref import V
from dyna import Term, Var

CONSTS = [0, 1, 'x', ('a',), ('b',), 2.5, 1.0, True, 'a']


def enc(x):
    if x.__class__ is tuple:
        return ('@',) + tuple(enc(a) for a in x)
    return x


def rt(rng, vs, depth=3, wild=.1, pv=.35, consts=CONSTS):
    u = rng.random()
    if vs and u < pv: return rng.choice(vs)
    if depth == 0 or u < pv + .15:
        return rng.choice(consts)
    f = rng.choice(['f', 'g'])
    if vs and rng.random() < wild: f = rng.choice(vs)
    return (f,) + tuple(rt(rng, vs, depth-1, wild, pv, consts) for _ in range(rng.randint(1, 3)))


def generalize(rng, x, vs, p=.25):
    "a more general term: replace subterms by variables (possibly inconsistently repeated)"
    if rng.random() < p: return rng.choice(vs)
    if x.__class__ is tuple:
        return (x[0],) + tuple(generalize(rng, a, vs, p) for a in x[1:])
    return x


def specialize(rng, x, vs, p=.4):
    "an instance of x"
    s = {v: (rt(rng, vs, 1, 0) if rng.random() < p else rng.choice(vs)) for v in ref.variables(enc(x))}
    def go(t):
        if t.__class__ is V: return s[t]
        if t.__class__ is tuple:
            f = t[0]
            if f.__class__ is V:
                f = s[f]
                if f.__class__ is tuple: f = 'f'
            return (f,) + tuple(go(a) for a in t[1:])
        return t
    return go(x)


def mutate(rng, x, vs):
    "a small change somewhere"
    if x.__class__ is tuple and len(x) > 1 and rng.random() < .8:
        i = rng.randrange(1, len(x))
        return x[:i] + (mutate(rng, x[i], vs),) + x[i+1:]
    return rt(rng, vs, 1)


def live(x, m):
    if x.__class__ is V:
        if x not in m: m[x] = Var(x.name)
        return m[x]
    if x.__class__ is tuple: return Term(*[live(a, m) for a in x])
    return x


def live_bound(rng, x, m, p=.2):
    "like live(), but some subterms sit behind chains of bound variables"
    if x.__class__ is V:
        t = live(x, m)
    elif x.__class__ is tuple:
        t = Term(*[live_bound(rng, a, m, p) if i else live(a, m) for i, a in enumerate(x)])
    else:
        t = x
    while rng.random() < p:
        v = Var('B'); v.value = t; t = v
    return t


def back(x, inv):
    "live -> encoded reference; inv: id(Var) -> (V, Var)"
    while isinstance(x, Var):
        if x.is_bound(): x = x.value
        else:
            if id(x) not in inv: inv[id(x)] = (V(x.name), x)
            return inv[id(x)][0]
    if isinstance(x, Term):
        return ('@',) + tuple(back(a, inv) for a in x.fargs)
    if isinstance(x, tuple):
        return ('@t',) + tuple(back(a, inv) for a in x)
    return x


def inverse(m):
    return {id(lv): (v, lv) for v, lv in m.items()}


def boundvars(x):
    "does the structure contain a bound variable anywhere?"
    if isinstance(x, Var): return x.is_bound()
    if isinstance(x, (Term, tuple)): return any(boundvars(a) for a in x)
    return False
