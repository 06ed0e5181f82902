"""C39: collections of programs hold exactly the programs they should; folding finds what unfolding replaced."""
import warnings
import ref, gen, conv, xform, foldwork, iso
from common import *
from dyna import Program, ProgramCollection
from dyna.programs import ProgramGraph
from dyna.transform import Fold, Unfold

RULE = ('random programs (recursion, self-joins, constants, built-ins, structured terms, duplicate rules). undo: every subgoal that can be unfolded without instantiating anything is unfolded and '
        'the original must be among the proposed, the safe and the reversible folds; steps: unfolds with filters, megafolds, reversible folds, hooks, pruning, slashes and left-corner '
        'transforms of collections against the steps of their members one at a time, with values of sampled members; containers: deduplication, grouping, filtering, sorting, slices and sums '
        'against lists of programs compared by an independent isomorphism; seq: folds and unfolds by every program and definition of a random history; graph: the graph of a random history and its tidied part against a model. Distinct by program and part')
CASES = (3600, 60000)
REQUIRED = {'undone': 900, 'undone_safe': 900, 'unfolds': 300, 'filtered': 150, 'members': 1500, 'eurekas': 100, 'reversible': 60, 'slashes': 150, 'lct': 150, 'dbs': 800, 'dedup': 150, 'merged': 100, 'graph': 100, 'tidy_partial': 40, 'unfolds_seq': 600, 'folds_seq': 150}
ASSUMPTIONS = ['reference unification and program isomorphism', 'reference evaluator']
WALL = (60, 700)
LOOSE = iso.loose


def same(a, b): return iso.program_iso(a, b, LOOSE)


def plain(Q): return conv.from_program(Q)


def term(y): return y.__class__ is tuple


def run_case(ctx):
    rng = ctx.rng
    warnings.simplefilter('ignore')
    u = rng.random()
    p = foldwork.prog(rng) if u < .5 else gen.datalog(rng, functions=rng.random() < .2, maxarity=2, n_idb=rng.randint(2, 3), builtins=rng.random() < .3)
    if len(p.rules) > 9: ctx.skip('large')
    P = xform.live(p, rng=rng)
    part = rng.choice(['undo', 'undo', 'steps', 'steps', 'containers', 'graph', 'seq'])
    ctx.notes.update(program=source(p.rules), part=part)
    globals()[part](ctx, rng, p, P, plain(P))


def defines(rules, y):
    return [k for k, (h, b) in enumerate(rules) if ref.unify(ref.rename(h), y, {}) is not None]


def inputs(P): return [h for h, b in plain(P.inputs)] if P.inputs else []


# ---------------------------------------------------------------------- folding undoes unfolding
def undo(ctx, rng, p, P, rules):
    n = 0
    opts = [(i, j) for i, (h, b) in enumerate(rules) for j, y in enumerate(b)]
    rng.shuffle(opts)
    for i, j in opts:
        h, b = rules[i]
        y = b[j]
        if not term(y) or ref.is_builtin(y): continue
        D = defines(rules, y)
        if not D or i in D: continue
        if any(ref.match(ref.rename(rules[k][0]), y) is None or not rules[k][1] or rules[k][1] == [rules[k][0]]
               or not set(ref.variables(rules[k][0])) <= set(ref.variables(rules[k][1])) for k in D): continue
        if b == [h] or len(b) > 6: continue
        Q = P.unfold(i, j)
        if len(Q) > 12: continue
        info = dict(step=f'unfold({i},{j})', unfolded=ref.show_program(plain(Q)))
        got = list(Q.partial_megafolds(P))
        hit = [N for N in got if same(plain(N), rules)]
        ctx.check(hit, 'no proposed fold restores the program', proposals=[ref.show_program(plain(N)) for N in got][:4], **info)
        ctx.event('undone')
        ctx.check(any(N.safe_by_smt for N in hit), 'the fold that restores the program is not accepted as safe', **info)
        ctx.check(any(N.safe_by_unit for N in hit), 'the fold that restores the program is not accepted by the unit measure', **info)
        ctx.event('undone_safe')
        rev = list(Q.reversible_megafolds(P))
        ctx.check(any(same(plain(N), rules) for N in rev), 'no reversible fold restores the program', proposals=[ref.show_program(plain(N)) for N in rev][:4], **info)
        n += 1
        if n == 4: break
    if not n: ctx.skip('nothing to unfold')
    ctx.nontrivial((source(p.rules), 'undo'))
    ctx.sample({'program': source(p.rules).split('\n'), 'unfolds undone': n})


# ---------------------------------------------------------------------- steps of collections
def exact(ctx, got, want, what, **kw):
    ctx.event('members', len(want))
    ctx.check(len(got) == len(want) and all(same(plain(a), b) for a, b in zip(got, want)), what, got=[ref.show_program(plain(a)) for a in got][:5], want=[ref.show_program(b) for b in want][:5], **kw)


def steps(ctx, rng, p, P, rules):
    sr = ref.Real
    sigs = xform.functors(rules)
    ins = inputs(P)
    def is_input(y): return any(ref.unify(ref.rename(x), y, {}) is not None for x in ins)
    def check_values(N, what): xform.meaning(ctx, rules, plain(N), p, sr, sigs, what, ndb=1, max_iter=60, slow=50)
    how = rng.choice(['unfolds', 'unfolds', 'eurekas', 'reversible', 'slashes', 'lct', 'prune'])
    C = P.to_collection()
    ctx.check(len(C) == 1 and C[0] is P, 'a singleton collection holds something else')
    if how == 'unfolds':
        open_ = [(i, j) for i, (h, b) in enumerate(rules) for j, y in enumerate(b) if term(y) and not is_input(y)]
        if len(open_) > 14 or any(b[j] is None for h, b in rules for j in range(len(b))): ctx.skip('large')
        def one(Q): return [plain(Q.unfold(i, j)) for i, j in open_]
        got = P.unfolds()
        ctx.check(got.__class__ is ProgramCollection, 'unfolds does not return a collection')
        ctx.check([(N.i, N.j) for N in got] == open_, 'unfolds enumerates other subgoals', got=[(N.i, N.j) for N in got], want=open_)
        exact(ctx, got, one(P), 'unfolds differ from unfolding one subgoal')
        ctx.event('unfolds')
        exact(ctx, P.to_collection().unfolds(), [rules] + one(P), 'unfolds of a collection are not its members and their unfolds')
        # filters
        X = [ref.V('F%d' % k) for k in range(3)]
        heads = rng.choice([h for h, b in rules] + [y for h, b in rules for y in b if term(y)])
        pat = rng.choice([heads, (heads[0],) + tuple(X[:len(heads) - 1]) if len(heads) <= 4 else heads])
        which = rng.choice(['heads', 'body', 'both'])
        m = {}
        kw = {}
        if which in ('heads', 'both'): kw['heads'] = conv.to_term(pat, m)
        if which in ('body', 'both'):
            cands = [y for h, b in rules for y in b if term(y)]
            bpat = rng.choice(cands) if cands else heads
            kw['body'] = conv.to_term(bpat, {})
        want = [(i, j) for i, j in open_ if ('heads' not in kw or ref.unify(ref.rename(rules[i][0]), ref.rename(pat), {}) is not None)
                and ('body' not in kw or ref.unify(ref.rename(rules[i][1][j]), ref.rename(bpat), {}) is not None)]
        got = P.unfolds(**kw)
        ctx.check([(N.i, N.j) for N in got] == want, 'filtered unfolds enumerates other subgoals', filters={k: str(v) for k, v in kw.items()}, got=[(N.i, N.j) for N in got], want=want)
        ctx.event('filtered')
        for N in rng.sample(list(P.unfolds()), min(2, len(open_))): check_values(N, f'unfolds() {N.i},{N.j}')
    elif how == 'eurekas':
        groups = []
        for i, (h, b) in enumerate(rules):
            hv = set(ref.variables(h)); terms = {k for k, y in enumerate(b) if list(ref.variables(y))}
            fs = []
            for v in ref.variables(b):
                if v in hv: continue
                use = frozenset(k for k, y in enumerate(b) if v in set(ref.variables(y)))
                fs.append(use)
            groups.append(set(fs))
        if any(y.__class__ is ref.V for h, b in rules for y in b): ctx.skip('variable factors')
        got = C.eurekas()
        ctx.check(same(plain(got[0]), rules), 'the program is not the first of its eurekas')
        names = []
        want = {(i, tuple(sorted(P.rules[i].analyzer.v2f[v]))) for i, r in enumerate(P) for v in r.analyzer.can_elim}
        ctx.check(all(frozenset(fs) in groups[i] for i, fs in want), 'a definition for something else than the subgoals of one local variable', got=sorted(want))
        ctx.check(len(got) == 1 + len(want), 'wrong number of definitions', got=len(got) - 1, want=len(want))
        ctx.event('eurekas', len(want))
        for N in got[1:]:
            R = plain(N)
            ctx.check(len(R) == len(rules) + 1, 'a hook adds other than one rule', program=ref.show_program(R))
        for N in rng.sample(got[1:], min(2, len(got) - 1)): check_values(N, 'eurekas()')
    elif how == 'reversible':
        foldwork.distribute(rng, p)
        P = xform.live(p); rules = plain(P); sigs = xform.functors(rules)
        if len(rules) > 10: ctx.skip('large')
        got = P.reversible_megafolds()
        for N in got:
            ctx.event('reversible')
            ctx.check(N.safe_by_rev, 'a fold that is not reversible')
            back = plain(N.unfold(N.i, N.j))
            ctx.check(same(back, rules), 'unfolding a reversible fold does not give the program back', fold=ref.show_program(plain(N)), back=ref.show_program(back))
        exact(ctx, P.to_collection().reversible_megafolds(), [rules] + [plain(N) for N in got], 'reversible folds of a collection are not its members and their folds')
        for N in rng.sample(list(got), min(2, len(got))): xform.meaning(ctx, rules, plain(N), p, sr, sigs, 'reversible fold', ndb=1, max_iter=60, slow=50)
    elif how in ('slashes', 'lct'):
        n = 1
        for h, b in rules: n *= len(b) + 1
        if n > 40: ctx.skip('large')
        if any(y.__class__ is ref.V for h, b in rules for y in b): ctx.skip('variable factors')
        got = C.slashes() if how == 'slashes' else C.lct()
        ctx.check(len(got) == n, 'wrong number of positions', got=len(got), want=n)
        seen = {tuple(N.positions.get(i) for i in range(len(rules))) for N in got}
        ctx.check(len(seen) == n and all(k is None or 0 <= k < len(rules[i][1]) for pos in seen for i, k in enumerate(pos)), 'positions missing or repeated', got=sorted(map(str, seen)))
        ctx.event(how, len(got))
        for N in rng.sample(list(got), min(2, n)): check_values(N, f'{how}() positions={N.positions}')
    else:
        K = rng.sample([P] + list(P.unfolds())[:3], 1) + [P]
        C = ProgramCollection(K)
        exact(ctx, C.prune_fast(), [plain(Q.prune_fast()) for Q in K], 'pruning a collection differs from pruning its members')
        exact(ctx, C.prune(), [plain(Q.prune()) for Q in K], 'pruning a collection differs from pruning its members')
        exact(ctx, C.map(lambda Q: Q.sort()), [plain(Q) for Q in K], 'map')
        for Q in C.prune(): xform.meaning(ctx, rules, plain(Q), p, sr, set(p.outputs), 'prune of a collection', ndb=1, max_iter=60, slow=50)
    ctx.nontrivial((source(p.rules), how))
    ctx.sample({'program': source(p.rules).split('\n'), 'step': how})


# ---------------------------------------------------------------------- steps that use earlier programs of the history
def seq(ctx, rng, p, P, rules):
    ins = inputs(P)
    def is_input(y): return any(ref.unify(ref.rename(x), y, {}) is not None for x in ins)
    Q, want, log = P, [], []
    stages = [P]
    if rng.random() < .75:
        new, subs = [], []
        for k in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(len(rules)); h, b = rules[i]
            idx = [j for j, y in enumerate(b) if term(y) and not ref.is_builtin(y)]
            if not idx: continue
            js = sorted(rng.sample(idx, rng.randint(1, min(3, len(idx)))))
            rest = [y for j, y in enumerate(b) if j not in js]
            keep = set(ref.variables(rest + [h]))
            hv = [v for v in dict.fromkeys(ref.variables([b[j] for j in js])) if v in keep]
            d = (f'new{k}',) + tuple(hv)
            subs.append((i, (h, [d] + rest)))
            m = {}
            new.append((ref.rename(d, m), [ref.rename(b[j], m) for j in js]))
        if new:
            Q = Q.define(conv.to_program(new)); stages.append(Q)
            log.append('define ' + '; '.join(map(ref.show_rule, new)))
            for i, r in subs: want.append(('the new definition', [r if k == i else x for k, x in enumerate(rules)] + new, i))
    if rng.random() < .6:
        now = plain(Q)
        opts = []
        for i, (h, b) in enumerate(rules):
            for j, y in enumerate(b):
                if not term(y) or ref.is_builtin(y) or is_input(y): continue
                D = defines(now, y)
                if not D or i in D or any(ref.match(ref.rename(now[k][0]), y) is None or not now[k][1] or now[k][1] == [now[k][0]]
                                          or not set(ref.variables(now[k][0])) <= set(ref.variables(now[k][1])) for k in D) or b == [h] or len(b) > 6: continue
                opts.append((i, j))
        if opts:
            i, j = rng.choice(opts)
            before = now
            Q = Q.unfold(i, j); stages.append(Q)
            log.append(f'unfold({i},{j})')
            want = [('the program before the unfold', before, i)]
    if len(Q) > 12: ctx.skip('large')
    now = plain(Q)
    info = dict(history=log, now=ref.show_program(now))
    C = ProgramCollection([Q])
    # unfolds by every program of the history
    open_ = [(i, j) for i, (h, b) in enumerate(now) for j, y in enumerate(b) if (term(y) or y.__class__ is ref.V) and not is_input(y)]
    by = {(i, j): [k for k, S in enumerate(stages) if defines(plain(S), now[i][1][j])] for i, j in open_}
    U = C.unfolds_seq()
    ctx.check(U[0] is Q, 'the collection is not a part of its unfolds', **info)
    at = {id(S): k for k, S in enumerate(stages)}
    got = sorted((N.i, N.j, at.get(id(N.defs))) for N in U[1:])
    ctx.check(got == sorted((i, j, k) for (i, j), ks in by.items() for k in ks), 'unfolds_seq does not unfold every subgoal by every program of the history that defines it', got=got, want={str(k): v for k, v in by.items()}, **info)
    first = C.unfolds_first()
    got = [(N.i, N.j, at.get(id(N.defs))) for N in first[1:]]
    ctx.check(sorted((i, j) for i, j, k in got) == sorted(o for o in by if by[o]) and all(k in by[i, j] for i, j, k in got), 'unfolds_first does not unfold every subgoal once', got=got, **info)
    ctx.event('unfolds_seq', len(U) - 1)
    # folds by the original program and every definition
    F = C.folds_seq(skip_trivial=False)
    ctx.check(F[0] is Q, 'the collection is not a part of its folds', **info)
    for N in F[1:][:12]:
        ctx.check(same(plain(N.unfold(N.i, N.j, defs=N.defs)), now), 'a fold is not undone by unfolding it', fold=ref.show_program(plain(N)), **info)
    for what, r, i in want:
        ctx.check(any(same(plain(N), r) for N in F[1:]), f'no fold by {what}', missing=ref.show_program(r), folds=[ref.show_program(plain(N)) for N in F[1:]][:5], **info)
        ctx.event('folds_seq')
    if not log: ctx.skip('no history')
    ctx.nontrivial((source(p.rules), tuple(log)))
    ctx.sample({'program': source(p.rules).split('\n'), 'history': log})


# ---------------------------------------------------------------------- containers
def containers(ctx, rng, p, P, rules):
    R = [rules]
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        base = list(rng.choice(R))
        if k < .4:          # an equal program: other order, other names
            rng.shuffle(base)
            base = [ref_rule(rng, r) for r in base]
        elif k < .6 and len(base) > 1: base.pop(rng.randrange(len(base)))
        elif k < .8: base.append(rng.choice(base))
        else:
            i = rng.randrange(len(base)); h, b = base[i]
            base[i] = (h, b + [rng.choice([.5, 2.0])])
        R.append(base)
    live = [P] + [conv.to_program(r, inputs=None) for r in R[1:]]
    R = [plain(x) for x in live]
    C = ProgramCollection(live)
    idx = {id(x): k for k, x in enumerate(live)}
    def ids(xs): return [idx[id(x)] for x in xs]
    # independent classes
    cls = []
    for r in R:
        for k, q in enumerate(cls):
            if same(r, R[q[0]]): q.append(len(cls) and [id(z) for z in R].index(id(r))); break
        else: cls.append([[id(z) for z in R].index(id(r))])
    where = {k: c for c, ks in enumerate(cls) for k in ks}
    D = C.dedup()
    got = sorted(where[k] for k in ids(D))
    ctx.check(got == list(range(len(cls))), 'deduplication keeps other than one program of each class', got=ids(D), classes=cls, programs=[ref.show_program(r) for r in R])
    ctx.event('dedup'); ctx.event('merged', len(R) - len(cls))
    G = C.groupby(lambda x: x)
    ctx.check(sorted(sorted(ids(v)) for v in G.values()) == sorted(cls), 'groups differ from the classes of equal programs', got=[ids(v) for v in G.values()], classes=cls)
    G = C.groupby(len)
    ctx.check({k: ids(v) for k, v in G.items()} == {n: [k for k, r in enumerate(R) if len(r) == n] for n in {len(r) for r in R}}, 'groups by length', got={k: ids(v) for k, v in G.items()})
    for k, x in enumerate(live):
        ctx.check((x in C) and C.index(x) == cls[where[k]][0], 'membership or index', k=k, classes=cls)
    deg = [tuple(sorted((len(set(ref.variables(list(r)))) for r in q), reverse=True)) for q in R]
    S = C.sort_degree()
    ctx.check([deg[k] for k in ids(S)] == sorted(deg) and sorted(ids(S)) == list(range(len(R))), 'sorting by degree', got=ids(S), degrees=deg)
    ctx.check(deg[ids([C.min_degree()])[0]] == min(deg), 'least degree', degrees=deg)
    ctx.check(ids(S) == sorted(range(len(R)), key=lambda k: deg[k]), 'sorting by degree is not stable', got=ids(S), degrees=deg)
    n = len(R)
    ctx.check(ids(C.filter(lambda x: len(x) > len(rules) - 1)) == [k for k, r in enumerate(R) if len(r) > len(rules) - 1], 'filter')
    a, b = rng.randint(-n, n), rng.randint(-n, n)
    ctx.check(ids(C[a:b]) == list(range(n))[a:b] and C[a:b].__class__ is ProgramCollection, 'slice', a=a, b=b)
    pick = [rng.randrange(n) for _ in range(rng.randint(0, 4))]
    ctx.check(ids(C[pick]) == pick and C[pick].__class__ is ProgramCollection, 'indexing by a list', pick=pick)
    k = rng.randrange(n)
    ctx.check(C[k] is live[k] and C[-1] is live[-1], 'indexing')
    Z = C[:2] + C[1:]
    ctx.check(ids(Z) == list(range(n))[:2] + list(range(n))[1:] and Z.__class__ is ProgramCollection and len(C) == n, 'sum of collections')
    ctx.check(C.add(live[0]) is live[0] and len(C) == n + 1 and C[n] is live[0], 'add')
    ctx.check(C.max(len) is live[max(range(n), key=lambda k: len(R[k]))], 'max')
    ctx.nontrivial((source(p.rules), 'containers', tuple(map(len, R))))


def ref_rule(rng, r):
    h, b = r
    m = {}
    b = [ref.rename(y, m) for y in b]; h = ref.rename(h, m)
    rng.shuffle(b)
    return h, b


# ---------------------------------------------------------------------- graphs
def graph(ctx, rng, p, P, rules):
    pool = [P]
    for k in range(rng.randint(2, 7)):
        Q = rng.choice(pool)
        how = rng.choice(['unfold', 'unfold', 'fold', 'fold', 'define', 'prune'])
        D = rng.choice(pool)
        if how == 'unfold':
            o = [(i, j) for i, r in enumerate(Q.rules) for j, y in enumerate(r.body) if Q.safe_inline(y) and not Q.is_builtin(y)]
            if not o: continue
            i, j = rng.choice(o)
            N = Q.unfold(i, j) if rng.random() < .5 else Q.unfold(i, j, defs=D)
        elif how == 'fold':
            o = list(Q.partial_megafolds(rng.choice([None, D]))) if len(Q) < 9 else []
            if not o: continue
            N = rng.choice(o)
        elif how == 'define':
            d = foldwork.definition(rng, [r for r in rules if r[1]], f'd{k}')
            if not d: continue
            N = Q.define(conv.to_program(d))
        else: N = Q.prune_fast()
        if len(N) > 12 or any(y.__class__ is ref.V for h, b in plain(N) for y in b): continue
        pool.append(N)
    reps = []
    def node(Q):
        r = plain(Q)
        for k, q in enumerate(reps):
            if same(r, q): return k
        reps.append(r)
        return len(reps) - 1
    edges, done = set(), set()
    def visit(x):
        if id(x) in done: return
        done.add(id(x))
        if x.__class__ is Unfold or x.__class__ is Fold:
            edges.add((node(x), 'fold' if x.__class__ is Fold else 'unfold', (node(x.parent), node(x.defs))))
            visit(x.parent); visit(x.defs)
        elif x.parent is None: edges.add((node(x), 'ref', ()))
        elif x.name == 'fresh': visit(x.parent)
        else:
            edges.add((node(x), x.name, (node(x.parent),)))
            visit(x.parent)
    tops = rng.sample(pool, rng.randint(1, min(3, len(pool))))
    for x in tops: visit(x)
    G = ProgramGraph(tops) if rng.random() < .5 else ProgramCollection(tops).graph
    def view(G): return {(node(x), label, tuple(node(y) for y in deps)) for x in G for label, _, deps in G[x]}
    got = view(G)
    nodes = {e[0] for e in edges}
    info = dict(programs=[ref.show_program(r) for r in reps], want=sorted(map(str, edges)), got=sorted(map(str, got)))
    ctx.check({node(x) for x in G} == nodes and len(list(G)) == len(nodes), 'the nodes are not the programs of the history', **info)
    ctx.check(got == edges, 'the edges are not the steps of the history', **info)
    h = G.hg()
    ctx.check({(node(e.head), e.weight, tuple(node(y) for y in e.body)) for x in h.incoming for e in h.incoming[x]} == edges, 'the hypergraph has other edges', **info)
    ctx.event('graph')
    objs = {}
    for x in G: objs[node(x)] = x
    correct = [k for k in sorted(nodes) if rng.random() < .8]
    rng.shuffle(correct)
    keep = set()
    while True:
        new = {hd for hd, _, deps in edges if hd in correct and all(d in keep for d in deps)} | keep
        if new == keep: break
        keep = new
    T = G.tidy([objs[k] for k in correct])
    want = {e for e in edges if e[0] in keep and all(d in keep for d in e[2])}
    got = view(T)
    ctx.check(got == want, 'the tidied graph is not the part that can be derived from correct programs', correct=correct, keep=sorted(keep), **dict(info, want=sorted(map(str, want)), got=sorted(map(str, got))))
    ctx.event('tidy_partial', 0 < len(keep) < len(nodes))
    ctx.nontrivial((source(p.rules), 'graph', len(pool), len(edges)))
    ctx.sample({'program': source(p.rules).split('\n'), 'nodes': len(nodes), 'edges': len(edges)})
