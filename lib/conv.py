"""Observers: translate live objects of the code under test into the reference
representation, and build live objects from it."""

import sys, os
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import math
import dyna
from dyna import Program, Rule, Term, Var, Product
from dyna import MinPlus, MaxTimes, Boolean, Float
from dyna.builtin import lam
import ref
from ref import V

SR = {'Float': None, 'MinPlus': MinPlus, 'MaxTimes': MaxTimes, 'Boolean': Boolean}


def raw(x):
    "Semiring value (or any constant) -> plain Python value."
    if isinstance(x, MinPlus): return x.cost
    if isinstance(x, MaxTimes): return x.score
    if isinstance(x, Boolean): return bool(x.score)
    if hasattr(x, 'item') and hasattr(x, 'dtype'): return x.item()
    return x


def wrapv(x, srname):
    if srname == 'Float': return x
    if srname == 'Boolean': return Boolean.one if x else Boolean.zero
    return SR[srname](x, None)


def from_term(x, m):
    "Live term -> reference term (m: id(Var) -> V)."
    while isinstance(x, Var):
        if x.is_bound():
            x = x.value
        else:
            v = m.get(id(x))
            if v is None:
                v = m[id(x)] = (V(x.name), x)    # keep x alive
            return v[0]
    if isinstance(x, Term):
        f = x.fargs[0]
        while isinstance(f, Var) and f.is_bound(): f = f.value
        if isinstance(f, Var):
            f = from_term(f, m)
        elif isinstance(f, Term):
            f = from_term(f, m)
        return (f,) + tuple([from_term(a, m) for a in x.fargs[1:]])
    if isinstance(x, lam):
        return ref.Lam(from_term(x.x, {}))
    return raw(x)


def from_rule(r):
    m = {}
    return (from_term(r.head, m), [from_term(b, m) for b in r.body])


def from_program(p):
    return [from_rule(r) for r in p.rules]


def chart_of(p, sr=ref.Real):
    """A program that is supposed to be a chart (constant bodies) -> {item: value}."""
    out = {}
    for r in p.rules:
        m = {}
        h = ref.canon(from_term(r.head, m))
        val = sr.one
        for b in r.body:
            b = from_term(b, m)
            if b.__class__ in (tuple, V):
                raise NotChart(f'{r!r} is not a fact')
            val = sr.times(val, b)
        out[h] = sr.plus(out[h], val) if h in out else val
    return {k: v for k, v in out.items() if not (sr.dist(v, sr.zero) == 0)}


class NotChart(Exception):
    pass


def solver_chart(s, sr=ref.Real):
    out = {}
    for k, v in s.chart.items():
        h = ref.canon(from_term(k, {}))
        v = raw(v)
        out[h] = sr.plus(out[h], v) if h in out else v
    return {k: v for k, v in out.items() if not (sr.dist(v, sr.zero) == 0)}


def to_term(x, m, cls=Term):
    if x.__class__ is V:
        if x not in m:
            m[x] = Var(x.name if isinstance(x.name, str) and x.name[:1].isupper() else None)
        return m[x]
    if x.__class__ is tuple:
        return Term(x[0] if x[0].__class__ is not tuple else to_term(x[0], m), *[to_term(a, m) for a in x[1:]])
    return x


def to_rule(r):
    m = {}
    head, body = r
    return Rule(to_term(head, m), *[to_term(b, m) for b in body])


def to_program(rules, inputs=None, outputs=None, semiring=None):
    p = Program([to_rule(r) for r in rules], inputs=inputs, outputs=outputs)
    if semiring is not None and semiring != 'Float':
        p = p.lift_semiring(SR[semiring])
    return p
