"""Seeded program / data / term generators (no dependency on the code under test)."""

import ref
from ref import V


ATOMS = [('a',), ('b',), ('c',), ('d',)]
INTS = [0, 1, 2, 3]
STRS = ['x', 'y z', 'w']
NESTED = [('s', ('a',)), ('s', ('s', ('a',))), ('t', ('a',), 1), ('$cons', ('a',), ('$nil',)), ('$nil',)]


def domain(rng, kind=None):
    "A small pool of ground constants."
    kind = kind or rng.choice(['atoms', 'ints', 'mixed', 'mixed', 'nested'])
    if kind == 'atoms': pool = ATOMS
    elif kind == 'ints': pool = INTS
    elif kind == 'mixed': pool = ATOMS[:2] + INTS[:3] + STRS[:2]
    else: pool = ATOMS[:2] + NESTED
    k = rng.randint(2, min(4, len(pool)))
    return rng.sample(pool, k)


class Prog:
    def __init__(self, rules, edb, outputs, dom, weights, tags=(), edb_domains=None):
        self.rules = rules            # intensional rules
        self.edb = edb                # {(name, arity)}
        self.outputs = outputs        # list of (name, arity)
        self.dom = dom
        self.weights = weights        # function rng -> weight
        self.tags = tuple(tags)
        self.edb_domains = edb_domains or {}

    def facts(self, rng, density=None):
        out = []
        for (f, n) in sorted(self.edb):
            if (f, n) in self.edb_domains:
                out.extend(self.edb_domains[f, n](rng))
                continue
            d = density if density is not None else rng.choice([0.4, 0.7, 1.0])
            import itertools
            doms = [self.dom] * n
            combos = list(itertools.product(*doms))
            rng.shuffle(combos)
            k = min(len(combos), max(1, int(d * min(len(combos), 7))))
            if rng.random() < .05: k = 0
            for c in combos[:k]:
                out.append(((f,) + c, [self.weights(rng)]))
        return out

    def input_decl(self):
        return sorted(self.edb)

    def show(self):
        return ref.show_program(self.rules)


def sig_term(f, n):
    return (f,) + tuple(V(f'X{i}') for i in range(n))


def w_small(rng):
    return rng.choice([.05, .1, .15, .2, .25, .3])


def w_int(rng):
    return rng.choice([1, 1, 2, 3, 5, 7, 0.5, 1.5])


def w_signed(rng):
    return rng.choice([1, -1, 2, -2, 3, .5, -.5])


def w_cost(rng):
    return rng.choice([0.0, 1.0, 1.0, 2.0, 3.0, 5.0, .5])


def datalog(rng, recursive=None, nonground=False, builtins=False, functions=False, dom=None,
            weights=None, n_idb=None, max_body=3, diag=True, coeffs=True, nullary=True, n_edb=None,
            body_locals=True, names=None, maxarity=3):
    """Random function-free (mostly) program.  Range-restricted unless `nonground`."""
    if recursive is None:
        recursive = rng.random() < .5
    dom = dom or domain(rng)
    if functions and rng.random() < .75:            # data with the structure that the rules look for
        dom = dom[:3] + [('s', d) for d in rng.sample(dom[:3], min(2, len(dom)))]
    if weights is None:
        weights = w_small if recursive else rng.choice([w_int, w_int, w_signed])
    n_edb = n_edb or rng.randint(1, 3)
    n_idb = n_idb or rng.randint(1, 4)
    arities = [0, 1, 1, 2, 2, 2, 3] if maxarity >= 3 else [0, 1, 1, 2, 2]
    edb = []
    for i in range(n_edb):
        n = rng.choice([1, 2, 2, 2, 3] if maxarity >= 3 else [1, 2, 2])
        edb.append((f'u{i}', n))
    if rng.random() < .15 and n_edb > 1:            # same functor, two arities
        edb[1] = (edb[0][0], (edb[0][1] % 3) + 1)
    edb = list(dict.fromkeys(edb))
    idb = []
    for i in range(n_idb):
        n = rng.choice(arities)
        if not nullary and n == 0: n = 1
        idb.append((f'p{i}', n))
    rules = []
    tags = set()
    for i, (f, n) in enumerate(idb):
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            avail = edb + idb[:i]
            if recursive and (k > 0 or rng.random() < .1):
                avail = avail + [(f, n)] + ([idb[j] for j in range(i+1, n_idb)] if rng.random() < .3 else [])
            nb = rng.choice([1, 1, 2, 2, 2, 3][:(6 if max_body >= 3 else 5)])
            pool = [V(x) for x in ['X', 'Y', 'Z', 'W'][:rng.randint(1, 4)]]
            body = []
            for _ in range(nb):
                g, m = rng.choice(avail) if rng.random() < .6 else rng.choice(avail[-3:])
                args = []
                for _a in range(m):
                    u = rng.random()
                    if u < .12: args.append(rng.choice(dom))
                    elif functions and u < .3: args.append(('s', rng.choice(pool)))
                    else: args.append(rng.choice(pool))
                body.append((g,) + tuple(args))
            if diag and rng.random() < .12 and body:
                body.append(body[rng.randrange(len(body))])
            if diag and rng.random() < .12 and body:
                y = rng.choice(body)                    # a shifted copy: overlaps as a set, may not unify in place
                args = list(y[1:]); rng.shuffle(args)
                body.append((y[0],) + tuple(
                    ('s', a) if nonground and rng.random() < .3 else
                    rng.choice(dom) if rng.random() < .25 else a for a in args))
            bv = list(ref.variables(body))
            head = []
            for _a in range(n):
                u = rng.random()
                if nonground and u < .25:
                    head.append(rng.choice(pool + [V('F')]))
                elif bv and u < .85:
                    head.append(rng.choice(bv))
                elif functions and bv and u < .9:
                    head.append(('s', rng.choice(bv)))
                else:
                    head.append(rng.choice(dom))
            head = (f,) + tuple(head)
            if builtins and rng.random() < .4 and len(bv) >= 1:
                op = rng.choice(['!=', '==', '!=', '='])
                a = rng.choice(bv)
                b = rng.choice(bv + dom)
                body.append((op, a, b))
                tags.add('cmp')
            if coeffs and (rng.random() < (.6 if recursive else .3)):
                body.insert(rng.randrange(len(body)+1), .3 if recursive else weights(rng))
            rules.append((head, body))
            if any(body.count(b) > 1 for b in body): tags.add('diag')
            if not set(ref.variables(head)) <= set(ref.variables(body)): tags.add('nonground')
    # base facts in the intensional part
    if rng.random() < .25:
        f, n = rng.choice(idb)
        rules.append(((f,) + tuple(rng.choice(dom) for _ in range(n)), [] if rng.random() < .5 and not recursive else [weights(rng)]))
        tags.add('idbfact')
    if nonground and rng.random() < .5:
        f, n = rng.choice(idb)
        pool = [V('X'), V('Y')]
        rules.append(((f,) + tuple(rng.choice(pool + dom) for _ in range(n)), [weights(rng)]))
        tags.add('nonground')
    if rng.random() < .1 and rules:
        rules.append(rules[rng.randrange(len(rules))])     # an exact duplicate rule
        tags.add('duprule')
    rng.shuffle(rules)
    used = set()
    for h, b in rules:
        for y in b:
            if y.__class__ is tuple: used.add((y[0], len(y) - 1))
    outs = [idb[-1]] if rng.random() < .6 else rng.sample(idb, rng.randint(1, len(idb)))
    if is_recursive(rules): tags.add('recursive')
    return Prog(rules, set(edb), outs, dom, weights, tags)


def add_varfactor(rng, p):
    "use a numeric argument as a factor: g(X) += f(X,Y) * Y"
    if not p.dom or not all(isinstance(d, int) for d in p.dom) or p.edb_domains: return False
    opts = [i for i, (h, b) in enumerate(p.rules) if ref.variables([y for y in b if y.__class__ is tuple and not ref.is_builtin(y) and all(a.__class__ is not tuple for a in y[1:])])]
    if not opts: return False
    i = rng.choice(opts)
    h, b = p.rules[i]
    vs = [(v, j) for j, y in enumerate(b) if y.__class__ is tuple and not ref.is_builtin(y) for v in y[1:] if v.__class__ is V]
    b = list(b)
    v, j = rng.choice(vs)
    b.insert(rng.randint(j + 1, len(b)), v)         # after a subgoal that binds it
    p.rules[i] = (h, b)
    p.tags = p.tags + ('varfactor',)
    return True


def is_recursive(rules):
    g = {}
    for h, b in rules:
        for y in b:
            if y.__class__ is tuple:
                g.setdefault((h[0], len(h)), set()).add((y[0], len(y)))
    for s in g:
        seen, st = set(), [s]
        while st:
            x = st.pop()
            for y in g.get(x, ()):
                if y == s: return True
                if y not in seen:
                    seen.add(y); st.append(y)
    return False


# ---------------------------------------------------------------------------
# structured families

def fam_path(rng):
    X, Y, Z = V('X'), V('Y'), V('Z')
    style = rng.choice(['left', 'right', 'non'])
    rec = {'left': [('path', X, Y), ('edge', Y, Z)], 'right': [('edge', X, Y), ('path', Y, Z)],
           'non': [('path', X, Y), ('path', Y, Z)]}[style]
    rules = [(('path', X, Y), [('edge', X, Y)]), (('path', X, Z), rec + ([.4] if style == 'non' else []))]
    if rng.random() < .5:
        rules.append((('goal',), [('start', X), ('path', X, Y), ('stop', Y)]))
        out = [('goal', 0)]
        edb = {('edge', 2), ('start', 1), ('stop', 1)}
    else:
        out = [('path', 2)]
        edb = {('edge', 2)}
    return Prog(rules, edb, out, domain(rng), w_small, ('path', 'recursive'))


def fam_cky(rng):
    X, Y, Z, I, J, K, W = [V(x) for x in 'XYZIJKW']
    n = rng.randint(2, 4)
    rules = [(('phrase', X, I, K), [('phrase', Y, I, J), ('phrase', Z, J, K), ('rewrite', X, Y, Z)]),
             (('phrase', X, I, K), [('rewrite', X, Y), ('word', Y, I, K)]),
             (('goal',), [('phrase', 'S', 0, n)])]
    if rng.random() < .4:
        rules.append((('phrase', X, I, K), [('unary', X, Y), ('phrase', Y, I, K)]))
    cats = ['S', 'A', 'B']
    words = ['u', 'v']
    doms = {
        ('rewrite', 3): lambda r: [(('rewrite', x, y, z), [w_small(r)]) for x in cats for y in cats for z in cats if r.random() < .35],
        ('rewrite', 2): lambda r: [(('rewrite', x, y), [w_small(r) * 2]) for x in cats for y in words if r.random() < .6],
        ('word', 3): lambda r: [(('word', r.choice(words), i, i+1), [1]) for i in range(n)],
        ('unary', 2): lambda r: [(('unary', x, y), [.2]) for x in cats for y in cats if r.random() < .3],
    }
    edb = {('rewrite', 3), ('rewrite', 2), ('word', 3)}
    if len(rules) == 4: edb.add(('unary', 2))
    return Prog(rules, edb, [('goal', 0)], [], w_small, ('cky', 'recursive'), doms)


def fam_count(rng):
    "arithmetic recursion bounded by a comparison"
    N, M, X = V('N'), V('M'), V('X')
    lim = rng.randint(3, 6)
    rules = [(('f', N), [('e', N)]),
             (('f', N), [('f', M), ('is', N, ('+', M, rng.choice([1, 2]))), ('<=', N, lim), rng.choice([.5, 1, 2])])]
    if rng.random() < .6:
        rules.append((('g', N, M), [('f', N), ('f', M), (rng.choice(['<', '<=', '!=', '>']), N, M)]))
        out = [('g', 2)]
    else:
        rules.append((('g', X), [('f', N), ('e', M), ('is', X, (rng.choice(['+', '-', '*', 'min', 'max']), N, M))]))
        out = [('g', 1)]
    return Prog(rules, {('e', 1)}, out, INTS, w_int, ('arith', 'recursive'))


def fam_list(rng):
    "list-structured recursion over an input list"
    X, Y, Xs, S = V('X'), V('Y'), V('Xs'), V('S')
    n = rng.randint(1, 4)
    lst = ('$nil',)
    for _ in range(n): lst = ('$cons', rng.choice(ATOMS[:3]), lst)
    rules = [(('suffix', Xs), [('inp', Xs)]),
             (('suffix', Xs), [('suffix', ('$cons', X, Xs))]),
             (('val', Xs, X), [('suffix', ('$cons', X, Xs)), ('w', X)]),
             (('goal', X), [('val', Xs, X)])]
    if rng.random() < .5:
        rules.append((('pairs', X, Y), [('val', Xs, X), ('val', S, Y), ('suffix', ('$cons', Y, Xs))]))
    doms = {('inp', 1): lambda r: [(('inp', lst), [1])],
            ('w', 1): lambda r: [(('w', a), [w_int(r)]) for a in ATOMS[:3]]}
    return Prog(rules, {('inp', 1), ('w', 1)}, [('goal', 1)], ATOMS[:3], w_int, ('list', 'recursive'), doms)


def fam_evenodd(rng):
    "mutual recursion over Peano numbers given by an input item"
    X = V('X')
    n = rng.randint(1, 5)
    t = ('z',)
    for _ in range(n): t = ('s', t)
    rules = [(('need', X), [('inp', X)]), (('need', X), [('need', ('s', X))]),
             (('even', ('z',)), [('need', ('z',))]),
             (('odd', ('s', X)), [('even', X), ('need', ('s', X)), 2]),
             (('even', ('s', X)), [('odd', X), ('need', ('s', X)), 3]),
             (('goal', X), [('even', X), ('inp', X)]), (('goal', X), [('odd', X), ('inp', X)])]
    doms = {('inp', 1): lambda r: [(('inp', t), [1])]}
    return Prog(rules, {('inp', 1)}, [('goal', 1)], [], w_int, ('peano', 'recursive'), doms)


def fam_hmm(rng):
    X, Y, Z, W, I, J = [V(x) for x in ['X', 'Y', 'Z', 'W', 'I', 'J']]
    n = rng.randint(2, 4)
    rules = [(('v', 0, X), [('init', X)]),
             (('v', J, Y), [('v', I, X), ('next', I, J), ('trans', X, Y), ('emit', Y, W), ('obs', J, W)]),
             (('total',), [('v', n, X)])]
    S = ['n', 'v']
    doms = {('init', 1): lambda r: [(('init', s), [w_small(r) * 3]) for s in S],
            ('next', 2): lambda r: [(('next', i, i+1), [1]) for i in range(n)],
            ('trans', 2): lambda r: [(('trans', s, t), [w_small(r) * 3]) for s in S for t in S if r.random() < .8],
            ('emit', 2): lambda r: [(('emit', s, w), [w_small(r) * 3]) for s in S for w in 'xy' if r.random() < .8],
            ('obs', 2): lambda r: [(('obs', i, r.choice('xy')), [1]) for i in range(1, n+1)]}
    return Prog(rules, set(doms), [('total', 0)], [], w_small, ('hmm', 'recursive'), doms)


def fam_chain(rng):
    "matrix-chain style long bodies (good for folds, hooks, binarization)"
    vs = [V(f'X{i}') for i in range(6)]
    k = rng.randint(2, 4)
    body = [(f'u{i % 3}', vs[i], vs[i+1]) for i in range(k)]
    if rng.random() < .5: rng.shuffle(body)
    heads = [('out', vs[0], vs[k]), ('out', vs[0]), ('out',)]
    h = rng.choice(heads)
    rules = [(h, body)]
    if rng.random() < .5:
        rules.append((h, [rng.choice(body)] + [b for b in body if rng.random() < .7]))
        if not set(ref.variables(h)) <= set(ref.variables(rules[-1][1])): rules.pop()
    edb = {(b[0], 2) for _, bs in rules for b in bs}
    return Prog(rules, edb, [('out', len(h) - 1)], domain(rng), rng.choice([w_int, w_signed]), ('chain',))


FAMILIES = [fam_path, fam_cky, fam_count, fam_list, fam_evenodd, fam_hmm, fam_chain]


def any_prog(rng, p_family=.35, **kw):
    if rng.random() < p_family:
        return rng.choice(FAMILIES)(rng)
    return datalog(rng, **kw)


# ---------------------------------------------------------------------------
# random terms

def rterm(rng, depth=3, vars_=None, p_var=.35, consts=None, functors=None):
    functors = functors or [('f', 1), ('f', 2), ('g', 2), ('h', 3), ('a', 0), ('b', 0)]
    consts = consts if consts is not None else [0, 1, 2, 'x', 'y']
    u = rng.random()
    if vars_ and u < p_var:
        return rng.choice(vars_)
    if depth <= 0 or u < p_var + .15:
        return rng.choice(consts) if rng.random() < .6 else (rng.choice(['a', 'b', 'c']),)
    f, n = rng.choice(functors)
    return (f,) + tuple(rterm(rng, depth-1, vars_, p_var, consts, functors) for _ in range(n))
