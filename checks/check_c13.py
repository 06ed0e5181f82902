"""C13: built-in relations are sound and complete in every supported mode, and delayed otherwise."""
import itertools, math
import ref, gen, conv
from common import *
from dyna import Term, Var, Program, Rule
from dyna.term import unify, snap
from dyna.execute import solver as S1, solver2 as S2
from dyna.exceptions import InstFault

RULE = ('(a) every built-in (=, six comparisons, `is` with unary - + abs ! str int, binary + - * / min max and comparisons, range, string '
        'concatenation/repetition) in every instantiation pattern of its arguments (constants, fresh, repeated and bound variables) over a small '
        'universe of numbers, strings, Booleans and terms, asked through the built-in table, Program.lookup and both solvers; the yielded bindings '
        'are compared with brute-force enumeration of the relation (sound, complete, each solution once, bindings undone also when abandoned); '
        '(b) the same built-ins inside rules with generators, in all body orders, under both solvers and Program.fc, against brute force over '
        'the generated tuples. Non-trivial = at least one solution or a rejected candidate; distinct by query / program')
CASES = (36000, 300000)
REQUIRED = {'direct': 30000, 'solutions': 20000, 'delayed': 3000, 'programs': 1500, 'program_items': 2500}
ASSUMPTIONS = ['numbers are small dyadic rationals, so float arithmetic is exact except for quotients (compared with tolerance 1e-9)',
               'ill-typed uses (e.g. 1 + "a") are not generated']
WALL = (60, 700)

NUM = [-3, -2, -1, 0, 1, 2, 3, 4, 6, 0.5, -0.5, 2.0]
STR = ['', 'a', 'b', 'ab', 'aa', 'aab', 'abab', 'aba']
BOOL = [True, False]
TRM = [('a',), ('b',), ('f', ('a',)), ('f', ('b',)), ('g', 1, 'x')]
MIX = [0, 1, 2.0, 'a', 'ab', True, ('a',), ('f', ('a',)), ('f', 1)]


def eq(a, b):
    if ref.is_num(a) and ref.is_num(b):
        return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return ref.ident(a, b)


def num(*xs): return all(ref.is_num(x) for x in xs)
def st(*xs): return all(isinstance(x, str) for x in xs)
def lnum(x): return 'v' if x.__class__ is V else 'k'


# op -> (arity of expression, universe, relation(X, args) over ground values, required(X, args with V for unbound) -> must not delay)
def r_add(x, a):
    if num(x, *a): return eq(x, a[0] + a[1])
    if st(x, *a): return x == a[0] + a[1]
    return False
def r_sub(x, a):
    return num(x, *a) and eq(x, a[0] - a[1])
def r_mul(x, a):
    return num(x, *a) and eq(x, a[0] * a[1])
def r_rep(x, a):
    return st(x, a[0]) and isinstance(a[1], int) and x == a[0] * a[1]
def r_div(x, a):
    return num(x, *a) and a[1] != 0 and eq(x * a[1], a[0])

def known(x): return x.__class__ is not V and ref.ground(x)
def two(x, a): return sum(map(known, (x, *a))) >= 2
def fwd(x, a): return all(map(known, a))
def q_add(x, a):
    return two(x, a) or st(x)
def q_addn(x, a): return two(x, a)
def q_mul(x, a):
    if fwd(x, a): return True
    if not two(x, a): return False
    y = a[0] if known(a[0]) else a[1]
    return y != 0 or x != 0
def q_div(x, a):
    if fwd(x, a): return True
    if known(a[1]): return True if a[1] == 0 else two(x, a)     # X known
    return two(x, a) and (x != 0 or a[0] != 0)

OPS = {
    'neg': ('-', 1, NUM, lambda x, a: num(x, *a) and eq(x, -a[0]), lambda x, a: known(x) or known(a[0])),
    'pos': ('+', 1, NUM, lambda x, a: num(x, *a) and eq(x, a[0]), lambda x, a: known(x) or known(a[0])),
    'abs': ('abs', 1, NUM, lambda x, a: num(x, *a) and eq(x, abs(a[0])), lambda x, a: known(x) or known(a[0])),
    'not': ('!', 1, BOOL, lambda x, a: x == (not a[0]), lambda x, a: known(x) or known(a[0])),
    'str': ('str', 1, None, lambda x, a: isinstance(x, bool) and x == isinstance(a[0], str), fwd),
    'int': ('int', 1, None, lambda x, a: isinstance(x, bool) and x == (isinstance(a[0], int)), fwd),
    'add': ('+', 2, NUM, r_add, q_addn),
    'cat': ('+', 2, STR, r_add, q_add),
    'sub': ('-', 2, NUM, r_sub, q_addn),
    'mul': ('*', 2, NUM, r_mul, q_mul),
    'div': ('/', 2, NUM, r_div, q_div),
    'min': ('min', 2, NUM, lambda x, a: num(x, *a) and eq(x, min(a)), fwd),
    'max': ('max', 2, NUM, lambda x, a: num(x, *a) and eq(x, max(a)), fwd),
}
for _op in ref.CMP:
    def mk(op):
        f = ref.CMP[op]
        def rel(x, a):
            if op in ('==', '!='): v = ref.ident(*a) if op == '==' else not ref.ident(*a)
            elif num(*a) or st(*a): v = f(*a)
            else: return False
            return isinstance(x, bool) and x == v
        return rel
    OPS['c' + _op] = (_op, 2, None, mk(_op), fwd)


def pick_arg(rng, pool, vs, p):
    u = rng.random()
    if u < p: return rng.choice(vs)
    x = rng.choice(pool)
    if x.__class__ is tuple and len(x) > 1 and u < p + .15:      # partially instantiated structure
        return (x[0], rng.choice(vs)) + x[2:]
    return x


def make(rng):
    "(query, kind, relation, required, per-variable universe)"
    vs = [V('A'), V('B'), V('C')]
    p = rng.choice([.15, .4, .4, .7])
    u = rng.random()
    if u < .12:
        # plain equality
        pool = MIX
        x = pick_arg(rng, pool, vs, p); y = pick_arg(rng, pool, vs, p)
        return ('=', x, y), '=', lambda a, b: ref.ident(a, b), lambda a, b: True, pool
    if u < .3:
        op = rng.choice(list(ref.CMP))
        pool = rng.choice([NUM, STR]) if op not in ('==', '!=') else rng.choice([NUM, STR, TRM, MIX])
        x = pick_arg(rng, pool, vs, p * .7); y = pick_arg(rng, pool, vs, p * .7)
        f = ref.CMP[op]
        rel = (lambda a, b: f(a, b)) if op not in ('==', '!=') else (lambda a, b: ref.ident(a, b) == (op == '=='))
        return (op, x, y), op, rel, lambda a, b: ref.ground(a) and ref.ground(b), pool
    if u < .38:
        a, b = rng.choice([-2, -1, 0, 1, 2]), rng.choice([-1, 0, 1, 2, 3])
        A = rng.choice(vs) if rng.random() < .12 else a
        B = rng.choice(vs) if rng.random() < .12 else b
        X = pick_arg(rng, [-2, 0, 1, 2, 5, 0.5], vs, .5)
        T = rng.choice([True, True, True, False])
        def rel(t, e):
            return t is True and isinstance(e[2], int) and isinstance(e[3], int) and num(e[1]) and e[1] == int(e[1]) and e[2] <= e[1] < e[3]
        if T is False:
            return ('is', T, ('range', X, A, B)), 'range', None, None, []
        return ('is', T, ('range', X, A, B)), 'range', rel, lambda t, e: t is True and known(e[2]) and known(e[3]), [-2, -1, 0, 1, 2]
    k = rng.choice(list(OPS))
    op, n, pool, rel, req = OPS[k]
    args = []
    if k in ('str', 'int'):
        pool = MIX
        X = pick_arg(rng, BOOL, vs, .5)
        args = [pick_arg(rng, pool, vs, p)]
        if args[0].__class__ is V and not (rng.random() < .3 and k == 'str'): args = [rng.choice(pool)]   # true is int(Y) enumerates all integers
    elif k[0] == 'c' and k != 'cat':
        if op in ('==', '!='): pool = rng.choice([NUM, STR, TRM, MIX])
        else: pool = rng.choice([NUM, STR])
        X = pick_arg(rng, BOOL, vs, .5)
        args = [pick_arg(rng, pool, vs, p * .6) for _ in range(2)]
    else:
        X = pick_arg(rng, pool, vs, p)
        args = [pick_arg(rng, pool, vs, p) for _ in range(n)]
    if k in ('add', 'sub', 'mul', 'div') and rng.random() < .35 and X.__class__ is not V and all(known(a) for a in args) and not (k == 'div' and args[1] == 0):
        X = {'add': lambda a, b: a+b, 'sub': lambda a, b: a-b, 'mul': lambda a, b: a*b, 'div': lambda a, b: a/b}[k](*args)
    return (('is', X, (op,) + tuple(args)), k, lambda x, e: rel(x, e[1:]),
            lambda x, e: req(x, list(e[1:])), pool)


def find_cells(x, out):
    if isinstance(x, Var): out.append(x)
    elif isinstance(x, Term):
        for a in x.fargs: find_cells(a, out)
    return out


def direct(ctx):
    rng = ctx.rng
    q, kind, rel, req, pool = make(rng)
    if rng.random() < .1 and kind == 'mul':
        # string repetition
        s = rng.choice(STR[1:]); n = rng.choice([0, 1, 2, V('A')])
        q, kind, pool = ('is', rng.choice([V('X'), 'aa', 'abab']), ('*', s, n)), 'rep', [0, 1, 2]
        rel = lambda x, e: r_rep(x, e[1:]); req = lambda x, e: known(e[2])
    vs = list(ref.variables(q))
    ctx.notes.update(query=ref.show(q), kind=kind)
    m = {}
    lq = conv.to_term(q, m)
    # some arguments sit behind bound variables
    def wrap(t, top=True):
        if isinstance(t, Term):
            t = Term(t.fn, *[wrap(a, False) for a in t.args])
        if not top and rng.random() < .15:
            v = Var('W'); v.value = t; t = v
        return t
    lq = wrap(lq)
    cells = [(v, v.value if v.is_bound() else None) for v in find_cells(lq, [])]
    inv = {}
    for rv, lv in m.items(): inv[id(lv)] = (rv, lv)
    via = rng.choice(['builtins', 'lookup', 'solver', 'solver2'])
    if kind in ref.CMP or kind == '=':
        via = rng.choice(['lookup', 'solver', 'solver2'])
    P = Program('')
    def ask():
        if via == 'builtins':
            for _ in P.builtins(lq): yield True
        elif via == 'lookup':
            for r in P.lookup(lq):
                if any(isinstance(b, Term) for b in r.body): yield False
                else: yield True
        else:
            s = (S1 if via == 'solver' else S2).Solver(P)
            for v in s.lookup_vals(lq):
                ctx.check(conv.raw(v) == 1, f'contribution {v!r} of a built-in is not one')
                yield True
    def restored(when):
        for v, b in cells:
            ctx.check(v.is_bound() == (b is not None) and (b is None or v.value is b), f'binding left behind {when}: {ref.show(q)}')
    ctx.event('direct'); ctx.event('via_' + via); ctx.event('kind_' + kind)
    sols = []
    delayed = False
    try:
        for ok in ask():
            if not ok:
                delayed = True
                continue
            sols.append(tuple(conv.from_term(m[v], inv) for v in vs))
            if len(sols) > 60: break
    except InstFault:
        delayed = True
    restored('after exhaustion')
    if sols and rng.random() < .3:
        it = ask(); next(it)
        it.close()
        del it           # CPython 3.12 releases the frame of a closed generator only here
        restored('after abandoning'); ctx.event('abandoned')
    if rel is None:        # only asserts: false is range(..) never yields a wrong answer
        ctx.check(not sols, f'{ref.show(q)} has a solution')
        return
    if delayed:
        ctx.event('delayed')
        ctx.check(not sols, f'{ref.show(q)}: both delayed and answered')
        ctx.check(not req(q[1], q[2]), f'{ref.show(q)}: not answered although its arguments determine the result (via {via})', query=ref.show(q))
        return
    # soundness
    ctx.event('solutions', len(sols))
    for s in sols:
        qi = ref.resolve(q, {v: (x,) for v, x in zip(vs, s) if x is not v})
        free = list(ref.variables(qi))
        for vals in itertools.product(pool[:5] if free else [0], repeat=max(1, len(free)) if free else 1):
            g = ref.apply(dict(zip(free, vals)), qi) if free else qi
            if free and not welltyped(g, kind): continue
            ctx.check(rel(g[1], g[2]), f'wrong solution of {ref.show(q)}: {ref.show(g)} (via {via})', query=ref.show(q))
    # completeness and uniqueness over the universe
    if len(vs) <= 3:
        per = []
        for v in vs:
            dom = list(pool)
            if q[0] == 'is' and q[1] is v and kind[0] == 'c' and kind != 'cat' or (kind in ('str', 'int') and q[1] is v): dom = BOOL
            per.append(dom)
        n = 0
        for vals in itertools.product(*per):
            n += 1
            if n > 2000: break
            g = ref.apply(dict(zip(vs, vals)), q)
            if not welltyped(g, kind): continue
            if not rel(g[1], g[2]): continue
            hits = sum(1 for s in sols if matches(s, vals))
            ctx.check(hits == 1, f'{ref.show(q)}: solution {ref.show(g)} is yielded {hits} times (via {via})', query=ref.show(q), solutions=[[ref.show(x) for x in s] for s in sols])
            ctx.event('candidates')
        ctx.event('tested_candidates', n)
    ctx.nontrivial((kind, ref.show(q), via))
    if sols and kind not in ('=',): ctx.sample({'query': ref.show(q), 'solutions': [[ref.show(x) for x in s] for s in sols][:4]})



def welltyped(g, kind):
    "type-correct ground instance (the relation is only specified there)"
    if kind in ref.CMP and kind not in ('==', '!='): return num(g[1], g[2]) or st(g[1], g[2])
    if g[0] == 'is' and kind[0] == 'c' and kind[1:] in ref.CMP and kind[1:] not in ('==', '!='): return num(*g[2][1:]) or st(*g[2][1:])
    if kind in ('add', 'sub', 'mul', 'div', 'neg', 'pos', 'abs', 'min', 'max'): return num(g[1], *g[2][1:])
    if kind == 'cat': return st(g[1], *g[2][1:])
    if kind == 'not': return isinstance(g[1], bool) and isinstance(g[2][1], bool)
    if kind in ('str', 'int') or kind[0] == 'c': return isinstance(g[1], bool)
    return True


def matches(s, vals):
    "does the (possibly nonground) solution tuple s cover vals?"
    t = {}
    for a, b in zip(s, vals):
        if not mt(a, b, t): return False
    return True


def mt(a, b, t):
    if a.__class__ is V:
        if a in t: return eq(t[a], b)
        t[a] = b
        return True
    if a.__class__ is tuple:
        return b.__class__ is tuple and len(a) == len(b) and a[0] == b[0] and all(mt(x, y, t) for x, y in zip(a[1:], b[1:]))
    if b.__class__ is tuple: return False
    return eq(a, b) if num(a, b) else ref.const_eq(a, b)


# ---------------------------------------------------------------------------
# (b) inside programs

def program(ctx):
    rng = ctx.rng
    X, Y, Z, W = [V(n) for n in 'XYZW']
    kind = rng.choice(['add', 'sub', 'mul', 'min', 'max', 'neg', 'abs', 'cat', 'div'] * 2 + ['cmp', 'cmp', '=', 'range', 'c<', 'c==', 'c!=', 'c>='])
    pool = STR if kind == 'cat' else [-2, -1, 0, 1, 2, 3, 4, 0.5] if kind != '=' else MIX
    if kind == 'cmp': pool = rng.choice([NUM, STR]); 
    vals = lambda: list({x: x for x in rng.sample(pool, rng.randint(1, min(4, len(pool))))}.values())
    dom = {v: vals() for v in (X, Y, Z)}
    if kind in OPS:
        op, n, _, rel0, req0 = OPS[kind]
        lhs = X if rng.random() < .85 or kind[0] == 'c' else rng.choice(pool)
        args = [Y, Z][:n]
        if rng.random() < .25: args[rng.randrange(n)] = rng.choice(pool)
        elif n == 2 and rng.random() < .15: args = [Y, Y]
        bi = ('is', lhs, (op,) + tuple(args))
        rel = lambda g: rel0(g[1], list(g[2][1:])); req = lambda g: req0(g[1], list(g[2][1:]))
        if kind[0] == 'c' and kind != 'cat': dom[X] = BOOL
    elif kind == 'cmp':
        op = rng.choice(list(ref.CMP))
        bi = (op, X, rng.choice([Y, rng.choice(pool)]))
        rel = lambda g: ref.CMP[op](g[1], g[2]); req = lambda g: ref.ground(g[1]) and ref.ground(g[2])
    elif kind == '=':
        bi = ('=', X, rng.choice([Y, rng.choice(pool), ('f', Y), ('f', Y)]))
        if bi[2].__class__ is tuple and len(bi[2]) == 2: dom[X] = [('f', 0), ('f', ('a',)), 1]; dom[Y] = [0, ('a',), 2]
        rel = lambda g: ref.ident(g[1], g[2]); req = lambda g: True
    else:
        A, B = rng.choice([-1, 0, 1]), rng.choice([Y, 3])
        dom[Y] = [0, 1, 2, 3]
        bi = ('is', True, ('range', X, A, B))
        rel = lambda g: A <= g[2][1] < g[2][3] and g[2][1] == int(g[2][1]); req = lambda g: known(g[2][3])
    bvs = list(ref.variables(bi))
    if not bvs: ctx.skip('ground built-in')
    # which variables have a generator; the others must be produced by the built-in
    gens = list(bvs)
    if rng.random() < .6 and len(gens) > 1:
        gens.remove(rng.choice(gens))
    extra = ('d_' + gens[0].name, gens[0]) if rng.random() < .25 else None
    subg = [('d_' + v.name, v) for v in gens]
    w = rng.choice([1, 2, 3])
    # a second built-in that consumes the result
    post = None
    if rng.random() < .3 and kind in OPS and kind not in ('cat',) and not (kind[0] == 'c'):
        t = rng.choice([0, 1, 2])
        post = (rng.choice(list(ref.CMP)), X if X in bvs else bvs[0], t)
    body = [bi] + subg + ([extra] if extra else []) + ([post] if post else []) + ([w] if w != 1 else [])
    rng.shuffle(body)
    head = ('out',) + tuple(bvs)
    facts = []
    fv = {}
    for v in gens:
        for x in dom[v]:
            k = rng.choice([1, 2, .5])
            facts.append((('d_' + v.name, x), [k])); fv[v, repr(x)] = k
    # brute force: generators give values to gens, the missing variable ranges over the solutions of the relation
    want = {}
    ready_all = True
    miss = [v for v in bvs if v not in gens]
    def solve_missing(g):
        "ground instances of bi given bindings g, by inverting the relation independently"
        q = ref.apply(g, bi)
        if not miss: return [q] if wt(q) and rel(q) else []
        cand = candidates(q, kind, miss[0])
        if cand is None: return None
        res = []
        for c in cand:
            qq = ref.apply({miss[0]: c}, q)
            if wt(qq) and rel(qq): res.append(qq)
        return res
    def wt(q):
        return welltyped(q, kind if kind != 'cmp' else bi[0])
    for combo in itertools.product(*[dom[v] for v in gens]):
        g = dict(zip(gens, combo))
        q = ref.apply(g, bi)
        if not req(q):
            ready_all = False
            continue
        out = solve_missing(g)
        if out is None: ctx.skip('relation not inverted by the oracle')
        for qq in out:
            s = ref.match(bi, qq)
            if s is None: continue
            if post:
                a, b = s[post[1]], post[2]
                if not (num(a, b)): ctx.skip('type')
                if not ref.CMP[post[0]](a, b): continue
            val = w
            for v in gens:
                val *= fv[v, repr(g[v])]
            if extra: val *= fv[gens[0], repr(g[gens[0]])]
            h = ref.apply(s, head)
            want[h] = want.get(h, 0) + val
    if not ready_all: ctx.skip('needs a mode that is documented as delayed')
    rules = [(head, body)] + facts
    rng.shuffle(rules)
    src = source(rules)
    ctx.notes.update(program=src)
    # is the order safe for strict left-to-right evaluation whichever generator drives?  Only if the built-ins come after the generators
    pos = {id(b): i for i, b in enumerate(body)}
    last_gen = max([i for i, b in enumerate(body) if b in subg])
    bi_pos = next(i for i, b in enumerate(body) if b is bi)
    strict = bi_pos > last_gen and (post is None or next(i for i, b in enumerate(body) if b is post) > bi_pos)
    how = rng.choice(['solver', 'solver2', 'fc', 'agenda'])
    ctx.event('programs'); ctx.event('how_' + how); ctx.event('pkind_' + kind); ctx.event('strict' if strict else 'reordered')
    P = build(rng, rules, conv, text=False if kind == 'neg' else None)
    try:
        if how == 'solver': got = conv.solver_chart((lambda s: (s(), s)[1])(S1.Solver(P)))
        elif how == 'solver2': got = conv.solver_chart((lambda s: (s(), s)[1])(S2.Solver(P)))
        elif how == 'fc': got = conv.chart_of(P.fc())
        else: got = conv.chart_of(P.agenda())
    except InstFault:
        ctx.check(not strict, f'built-in {ref.show(bi)} not answered although it is ready ({how})', program=src)
        ctx.event('instfault'); return
    except conv.NotChart:
        ctx.check(not strict, f'built-in {ref.show(bi)} left delayed although it is ready ({how})', program=src)
        ctx.event('left_delayed'); return
    got = {round_item(k): v for k, v in got.items() if k[0] == 'out'}
    want = merge(want)
    got2 = merge(got)
    bad = []
    for k in set(got2) | set(want):
        if abs(got2.get(k, 0) - want.get(k, 0)) > 1e-6 * max(1, abs(want.get(k, 0))): bad.append((ref.show(k), got2.get(k, 0), want.get(k, 0)))
    ctx.check(not bad, f'rule with built-in {ref.show(bi)} ({how}): {bad[:1]}', program=src, diffs=bad[:6])
    ctx.event('program_items', len(want))
    if want or got: ctx.nontrivial((src, how))
    if want: ctx.sample({'program': src.split('\n')[:6], 'how': how, 'out': ref.show_chart(want)})


def round_item(k):
    return tuple(round(x, 9) if isinstance(x, float) else x for x in k)


def merge(c):
    out = {}
    for k, v in c.items():
        k = round_item(k)
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v != 0}


def candidates(q, kind, v):
    "a finite superset of the solutions for the single unbound variable v"
    if kind in ('cmp',): return None
    if kind == '=':
        s = ref.unify(q[1], q[2], {})
        if s is None: return []
        x = ref.resolve(v, s)
        return [x] if ref.ground(x) else None
    if kind == 'range': return list(range(-5, 8))
    x, a = q[1], q[2][1:]
    if kind == 'cat':
        if x.__class__ is not V:
            return list({x[i:j] for i in range(len(x)+1) for j in range(i, len(x)+1)})
        return [a[0] + a[1]]
    if kind[0] == 'c': return BOOL if x is v else None
    if x is v:
        if any(b is v for b in a): return None
        try:
            return [{'add': lambda: a[0]+a[1], 'sub': lambda: a[0]-a[1], 'mul': lambda: a[0]*a[1], 'div': lambda: a[0]/a[1],
                     'min': lambda: min(a), 'max': lambda: max(a), 'neg': lambda: -a[0], 'abs': lambda: abs(a[0])}[kind]()]
        except ZeroDivisionError:
            return []
    if list(a).count(v) != 1: return None
    if kind in ('min', 'max'): return None
    if kind == 'neg': return [-x]
    if kind == 'abs': return [x, -x] if x != 0 else [0]
    i = a.index(v) if False else next(j for j, b in enumerate(a) if b is v)
    o = a[1-i]
    if kind == 'add': return [x - o]
    if kind == 'sub': return [x + o] if i == 0 else [o - x]
    if kind == 'mul': return [] if o == 0 else [x / o]
    if kind == 'div': return [x * o] if i == 0 else ([] if x == 0 else [o / x])
    return None


def run_case(ctx):
    for _ in range(4): direct(ctx)
    if ctx.rng.random() < .5: program(ctx)
