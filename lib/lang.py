"""An independent description of the surface language (operator table, names, constants) and random terms over it."""
import ref
from ref import V

# operator table, loosest first: (priority class, associativity, operators); own copy, not imported from the code
BIN = [('L', [';']), ('L', [',']), ('N', ['=']), ('R', ['|']), ('R', ['&']), ('R', ['=>']), ('R', ['is', '<-', '<--', '-->', '~>', '->', '<~', '~', '::']),
       ('N', ['==', '!=', '=/=', '∈']), ('L', [':']), ('C', ['<', '<=', '>', '>=']),
       ('L', ['+']), ('L', ['-']), ('L', ['*']), ('L', ['@']), ('L', ['#']), ('L', ['/', '//', '\\']), ('R', ['^'])]
LEVEL = {op: (i, a) for i, (a, ops) in enumerate(BIN) for op in ops}
UNARY = ['not', '+', '-', '~', '&', '*', '!', '?']
ULEVEL = len(BIN)
NULL = ['*', '!', '?']
ARG, LIST = LEVEL[','][0], LEVEL['|'][0]       # positions that need something tighter than these

PLAIN = ['f', 'g', 'foo', 'x1', 'e', 'e0', 'e5', 'inf1', 'info', 'isx', 'notx', 'forx', 'trueish', "f'", 'αβ', 'camelCase', 'a_b', 'inputx', 'outputs_']
QUOTED = ['hello world', 'inf', 'X', '3', 'a.b', 'is', 'for', 'not', 'true', 'false', '+', 'é', '%', '"', '<.>', '(', 'a,b', '-3', '_', 'f#*&', '1x', '', ' ']
QUOTED = [q for q in QUOTED if q]
STRINGS = ['', 'a', 'hello world', 'a"b', '"', '\\', 'a\\', '\\"', 'a\nb', 'tab\there', 'cr\rx', '\\n', "it's", '%', 'é∞', '.', 'f(X)', '3', '\\\\', '"; drop.']
VARS = ['X', 'Y', 'Z', "X'", 'Xs', '$X', '$X1', 'Γ', 'X₁', 'Camel_1']


def num(rng):
    u = rng.random()
    if u < .5: return rng.choice([0, 1, 2, 3, 10, -1, -2, -17, 123456789012345678901])
    return rng.choice([0.5, 1.0, 2.5, -0.25, 1e-7, 1e22, -3.5e+30, 1e5, 0.1, 1/3, float("inf"), -float("inf")])


def const(rng):
    u = rng.random()
    if u < .5: return num(rng)
    if u < .85: return rng.choice(STRINGS)
    return rng.choice([True, False])


def name(rng, p_quoted=.15):
    return rng.choice(QUOTED) if rng.random() < p_quoted else rng.choice(PLAIN)


def term(rng, vs, d=4, ops=.5, null=True):
    "random term of the surface language"
    u = rng.random()
    if d == 0 or u < .25:
        u = rng.random()
        if vs and u < .4: return rng.choice(vs)
        if u < .75: return const(rng)
        if u < .8 and null: return (rng.choice(NULL),)
        return (name(rng),)
    if rng.random() < ops:
        if rng.random() < .22:
            return (rng.choice(UNARY), term(rng, vs, d-1, ops, null))
        op = rng.choice(rng.choice(BIN)[1])
        return (op, term(rng, vs, d-1, ops, null), term(rng, vs, d-1, ops, null))
    u = rng.random()
    if u < .25:
        n = rng.choice([0, 1, 2, 3])
        tail = ('$nil',) if rng.random() < .7 or n == 0 else term(rng, vs, d-1, ops, null)
        for _ in range(n): tail = ('$cons', term(rng, vs, d-1, ops, null), tail)
        return tail
    return (name(rng),) + tuple(term(rng, vs, d-1, ops, null) for _ in range(rng.randint(1, 3)))


def is_op(x):
    return x.__class__ is tuple and ((len(x) == 3 and x[0] in LEVEL) or (len(x) == 2 and x[0] in UNARY) or (len(x) == 1 and x[0] in NULL))
