"""Helpers shared by the checks."""

import math
import ref, gen
from ref import V, RefLimit, RefInst
from mon import Violation, Skip


class PopLimit(Exception):
    pass


def counting_heap(limit, counter, base=None):
    "An agenda that counts pops (logical steps) and gives up after `limit`."
    if base is None:
        from arsenal.datastructures.heap import LocatorMaxHeap as base

    class CountingHeap(base):
        def popitem(self):
            counter[0] += 1
            if counter[0] > limit:
                raise PopLimit(f'no fixpoint after {limit} agenda pops')
            return super().popitem()
    return CountingHeap


def reference(ctx, rules, sr=ref.Real, infinite_recursion=False, **kw):
    "Reference chart, or skip the case."
    info = {}
    try:
        c = ref.evaluate(rules, sr, info=info, **kw)
    except RefLimit as e:
        ctx.skip(f'reference: {e}')
    except RefInst:
        ctx.skip('reference: delayed builtin')
    except (ZeroDivisionError, OverflowError):
        ctx.skip('reference: arithmetic')
    except TypeError:
        ctx.skip('reference: type error in a builtin')
    if any(isinstance(v, float) and math.isnan(v) for v in c.values()):
        ctx.skip('reference: nan')
    if sr is ref.Real and any(isinstance(v, float) and math.isinf(v) for v in c.values()):
        if signed(rules): ctx.skip('reference: infinite or nan')      # inf - inf
        if recursive(rules) and not infinite_recursion: ctx.skip('reference: infinite or nan')
        ctx.event('infinite_values'); ctx.event('infinite_recursive', recursive(rules))
    ctx.event('reference_items', len(c))
    c_info = info
    return c, c_info


def signed(rules):
    "Is there a weight that is not positive?"
    return any(isinstance(y, (int, float)) and not y > 0 for h, b in rules for y in b)


def recursive(rules):
    "Is there a cycle among the predicates (functor/arity)?"
    sig = lambda y: (y[0], len(y)) if y.__class__ is tuple else None
    g = {}
    for h, b in rules:
        g.setdefault(sig(h), set()).update(sig(y) for y in b if y.__class__ is tuple or y.__class__ is ref.V)
    done, path = set(), set()
    def visit(x):
        if x in done: return False
        if x in path: return True
        path.add(x)
        r = any(visit(y) for y in g.get(x, ()))
        path.discard(x); done.add(x)
        return r
    return any(visit(x) for x in list(g)) or any(sig(h) is None for h, b in rules)


def pick_semiring(rng, prog, allow=('Float', 'Boolean', 'MinPlus', 'MaxTimes')):
    return rng.choice(allow) if rng.random() < .45 else 'Float'


def lift_rules(rules, name, rng=None):
    "Reinterpret the numeric weights of a program in another semiring."
    if name == 'Float':
        return rules
    out = []
    for h, b in rules:
        nb = []
        for y in b:
            if y.__class__ is tuple or y.__class__ is V: nb.append(y)
            else:
                nb.append(lift_val(y, name))
        out.append((h, nb))
    return out


def nonneg(rules):
    return [(h, [abs(y) if isinstance(y, (int, float)) else y for y in b]) for h, b in rules]


def lift_val(y, name):
    if name == 'Boolean': return y > 0
    return y


def expect_equal(ctx, got, want, sr, what, tol=1e-5, universe=None, **detail):
    bad = ref.compare(got, want, sr, tol, universe)
    ctx.event('compared_items', len(set(got) | set(want)))
    if bad:
        d = [(ref.show(k), f'got {x!r}', f'want {y!r}') for k, x, y in bad]
        raise Violation(f'{what}: {d[0]}', detail_items=d, got=ref.show_chart(got),
                        want=ref.show_chart(want), **detail)


def source(rules):
    return ref.show_program(rules)


def build(rng, rules, conv, semiring=None, inputs=None, outputs=None, text=None):
    "Build a live program either from source text or from term objects."
    from dyna import Program
    if text is None: text = rng.random() < .5
    if text:
        p = Program(source(rules), inputs=inputs, outputs=outputs)
    else:
        p = conv.to_program(rules, inputs=inputs, outputs=outputs)
    if semiring and semiring != 'Float':
        p = p.lift_semiring(conv.SR[semiring])
    return p


def decl(sigs):
    "input/output declaration source"
    return '\n'.join(f'{ref.show(gen.sig_term(f, n))}.' for f, n in sigs)


def pattern(rng, dom, item):
    "Turn an item into a query pattern by replacing arguments with variables."
    vs = [V('A'), V('B'), V('C')]
    return (item[0],) + tuple(rng.choice(vs) if rng.random() < .5 else a for a in item[1:])


def infinity(rules):
    return any(y == math.inf for h, b in rules for y in b if isinstance(y, float))


def infinite(rng, rules, facts, chance=.06):
    "now and then, a fact with an infinite value"
    if rng.random() >= chance or not facts: return rules, facts
    facts = nonneg(list(facts)); rules = nonneg(rules)
    i = rng.randrange(len(facts))
    facts[i] = (facts[i][0], [math.inf])
    return rules, facts
