"""C36: pattern matching of rule bodies enumerates exactly the matches."""
import itertools
import ref, conv, terms
from common import *
from ref import V
from terms import enc, rt
from dyna import Product, Term, Var, Subst

RULE = ('random pattern products against random target products (built from instances of the pattern, decoys, repeated predicates, '
        'repeated/shared variables, constants, variables as subgoals), with and without an initial substitution; compared with '
        'brute-force enumeration of injective alignments; non-trivial = at least two matches; distinct by pair')
CASES = (12000, 100000)
REQUIRED = {'matches': 6000, 'no_match': 300, 'permutation_matches': 1500}
ASSUMPTIONS = ['pattern and target share no variables (as after fresh)']


def prod(rng, vs, n, preds):
    out = []
    for _ in range(n):
        u = rng.random()
        if u < .06: out.append(rng.choice([1, 2.5, True]))
        elif u < .1: out.append(rng.choice(vs))
        else: out.append((rng.choice(preds),) + tuple(rt(rng, vs, rng.choice([0, 0, 1]), 0, .65) for _ in range(rng.choice([0, 1, 1, 2]))))
    return out


def brute(xs, ys):
    "all injective maps i -> j with a common matching substitution"
    for js in itertools.permutations(range(len(ys)), len(xs)):
        s = {}
        for x, j in zip(xs, js):
            s = ref.match(enc(x), enc(ys[j]), s)
            if s is None: break
        else:
            yield js, s


def run_case(ctx):
    rng = ctx.rng
    vs = [V(c) for c in 'XYZ'][:rng.choice([1, 2, 3])]
    ws = [V(c) for c in 'ABC']
    preds = ['p', 'q', 'r'][:rng.choice([1, 1, 2, 3])]
    xs = prod(rng, vs, rng.choice([0, 1, 2, 2, 3, 3, 4]), preds)
    if rng.random() < .8:
        sp = terms.specialize(rng, ('p',) + tuple(xs), ws)[1:]
        ys = list(sp) if rng.random() < .8 else list(sp)[:-1]
        if rng.random() < .3: ys = [terms.mutate(rng, y, ws) if rng.random() < .3 else y for y in ys]
    else: ys = []
    ys += prod(rng, ws, rng.choice([0, 0, 1, 2]), preds)
    rng.shuffle(ys)
    if len(ys) > 6: ys = ys[:6]
    mx, my = {}, {}
    X = Product([terms.live(x, mx) for x in xs])
    Y = Product([(terms.live_bound(rng, y, my, .1) if rng.random() < .2 else terms.live(y, my)) for y in ys])
    ctx.notes['pattern'] = repr(xs); ctx.notes['target'] = repr(ys)
    inv = terms.inverse({**mx, **my})
    want = list(brute(xs, ys))
    got = list(X.covers(Y))
    key = lambda js: tuple(js)
    seen = {}
    for S, A, R in got:
        js = [None] * len(xs)
        for j, i in A.items():
            ctx.check(js[i] is None, f'pattern subgoal {i} is aligned twice: {A}')
            js[i] = j
        ctx.check(None not in js, f'alignment {A} leaves a pattern subgoal unmatched')
        js = tuple(js)
        ctx.check(js not in seen, f'match {js} enumerated twice')
        seen[js] = S
        ctx.check(sorted(R) == [j for j in range(len(ys)) if j not in js], f'match {js} leaves {R}')
        for i, j in enumerate(js):
            a, b = terms.back(S(X[i]), inv), terms.back(Y[j], inv)
            ctx.check(ref.ident(a, b), f'substitution of match {js} maps {xs[i]!r} to {a!r}, not {ys[j]!r}')
        ctx.event('matches')
    miss = {js for js, _ in want} ^ set(seen)
    ctx.check(not miss, f'matches {sorted(miss)} of {xs} in {ys} are {"missing" if miss & {j for j, _ in want} else "wrong"}')
    if not want: ctx.event('no_match')
    if len(want) > 1: ctx.nontrivial((xs, ys))
    # complete commutative matches
    full = len(xs) == len(ys)
    gotp = list(X.match_comm(Y)) if full or xs else []      # (the empty pattern is only used after a size check)
    wantp = want if full else []
    ctx.check(len(gotp) == len(wantp), f'{len(gotp)} complete matches, should be {len(wantp)}: {xs} / {ys}')
    subs = []
    for S in gotp:
        img = [terms.back(S(x), inv) for x in X]
        tgt = [terms.back(y, inv) for y in Y]
        ctx.check(any(all(ref.ident(img[i], tgt[j]) for i, j in enumerate(js)) for js, _ in want), f'complete match {S} is not a match')
        ctx.event('permutation_matches')
    # with variables fixed beforehand
    if vs and want and rng.random() < .5:
        js0, s0 = rng.choice(want)
        v = rng.choice(vs)
        if v in s0:
            S0 = Subst()
            # find the live term the variable is bound to in that match
            for S, A, R in got:
                if all(A.get(j) == i for i, j in enumerate(js0)):
                    S0[mx[v]] = S[mx[v]]
            lim = [js for js, s in want if ref.ident(s[v], s0[v])]
            g2 = [tuple(sorted(A, key=A.get)) for S, A, R in X.covers(Y, s=S0.copy())]
            ctx.check(sorted(g2) == sorted(lim), f'with {v} fixed to {s0[v]!r}: matches {g2}, should be {lim}')
            ctx.event('constrained')
    ctx.check(not terms.boundvars(tuple(mx.values())), 'matching bound a pattern variable')
    ctx.sample({'pattern': repr(xs), 'target': repr(ys), 'matches': [list(js) for js in seen][:4]})
