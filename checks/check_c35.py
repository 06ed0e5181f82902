"""C35: graph algorithms are exact."""
from common import *
from dyna.util.graphs import Graph, Hypergraph, tarjan

RULE = ('random directed graphs (self-loops, isolated nodes, dense/sparse, unreachable parts, long cycles and chains) and hypergraphs '
        '(empty bodies, repeated body nodes, unreachable supports), all root choices; compared with brute-force closure; '
        'non-trivial = has a cycle through two nodes and a node outside it; distinct by edge list')
CASES = (12000, 80000)
REQUIRED = {'tarjan': 3000, 'closure': 2000, 'condensation': 3000, 'reachability': 3000}
ASSUMPTIONS = ['hypergraph usefulness lies between (supported hyperedges only) and (any hyperedge with a derivable member), which is what pruning relies on']


def closure(nodes, succ):
    R = {}
    for x in nodes:
        seen, todo = set(), list(succ[x])
        while todo:
            y = todo.pop()
            if y in seen: continue
            seen.add(y); todo.extend(succ[y])
        R[x] = seen
    return R


def run_case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 12])
    name = rng.choice([lambda i: i, lambda i: f'n{i}', lambda i: ('t', i)])
    nodes = [name(i) for i in range(n)]
    kind = rng.random()
    if kind < .6: edges = [(rng.choice(nodes), rng.choice(nodes)) for _ in range(rng.choice([0, n//2, n, 2*n, n*n//2]))]
    elif kind < .8: edges = [(nodes[i], nodes[(i+1) % n]) for i in range(n)] + [(rng.choice(nodes), rng.choice(nodes)) for _ in range(rng.randint(0, 3))]
    else: edges = [(nodes[i], nodes[j]) for i in range(n) for j in range(i) if rng.random() < .4]
    rng.shuffle(edges)
    g = Graph(edges)
    for x in nodes: g.add(x)
    succ = {x: {b for a, b in edges if a == x} for x in nodes}
    R = closure(nodes, succ)
    ctx.notes['edges'] = repr(edges)
    ctx.check(set(g.nodes) == set(nodes) and set(g.edges) == set(edges), 'graph does not hold the edges that were added')

    def scc_of(x): return frozenset([x] + [y for y in nodes if y in R[x] and x in R[y]])

    roots = nodes if rng.random() < .5 else rng.sample(nodes, rng.randint(1, n))
    reach = set(roots) | {y for x in roots for y in R[x]}
    got = list(tarjan(lambda x: succ[x], roots))
    want = {scc_of(x) for x in reach}
    ctx.check(len(got) == len(set(map(frozenset, got))) and {frozenset(c) for c in got} == want,
              f'strongly connected components {got} of edges {edges} from {roots}, should be {want}')
    pos = {x: i for i, c in enumerate(got) for x in c}
    for a, b in edges:
        if a in pos and pos[a] != pos[b]:
            ctx.check(pos[b] < pos[a], f'component of {b} comes after that of {a} although {a}->{b}: {got}')
    ctx.event('tarjan')

    c = g.condensation(None if roots is nodes else roots)
    ctx.check(set(c.nodes) == want, f'condensation has nodes {c.nodes}, should be {want} (edges {edges}, roots {roots})')
    wantE = {(scc_of(a), scc_of(b)) for a, b in edges if a in reach and scc_of(a) != scc_of(b)}
    ctx.check(set(c.edges) == wantE, f'condensation has edges {set(c.edges)}, should be {wantE}')
    for x in reach:
        ctx.check(c.topo[c.s[x]] == scc_of(x), f'condensation maps {x!r} to {c.topo[c.s[x]]}')
    ctx.event('condensation')

    if n <= 8:
        for refl in (False, True):
            t = g.transitive_closure(reflexive=refl)
            wantT = {(a, b) for a in nodes for b in R[a]} | ({(a, a) for a in nodes} if refl else set())
            ctx.check(set(t.edges) == wantT, f'transitive closure (reflexive={refl}) of {edges}: {set(t.edges) ^ wantT} differ')
            ctx.check(set(t.nodes) == set(nodes), 'transitive closure loses nodes')
        ctx.check(set(g.edges) == set(edges), 'transitive closure changed its argument')
        ctx.event('closure')
    if any(len(x) > 1 and len(x) < n for x in want): ctx.nontrivial(sorted(map(repr, edges)))

    # hypergraphs
    h = Hypergraph()
    E = []
    for i in range(rng.choice([1, n, 2*n])):
        head = rng.choice(nodes)
        body = tuple(rng.choice(nodes) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
        E.append((head, body))
        h.add_edge(head, i, *body)
    ins = rng.sample(nodes, rng.randint(0, min(n, 3)))
    outs = rng.sample(nodes, rng.randint(0, min(n, 3)))
    C = set(ins)
    while True:
        new = {hd for hd, b in E if all(y in C for y in b)} - C
        if not new: break
        C |= new
    def back(ok):
        T = set(outs)
        while True:
            new = {y for hd, b in E if hd in T and ok(b) for y in b if y in C} - T
            if not new: return T
            T |= new
    lo, hi = back(lambda b: all(y in C for y in b)), back(lambda b: True)
    T = h.reachability(ins, outs)
    ctx.check((lo & C) <= T <= hi, f'reachability({ins}, {outs}) of {E} is {T}; needed {lo & C}, allowed {hi}')
    ctx.check(sorted((e.head, e.weight, e.body) .__repr__() for e in h.edges()) == sorted((hd, i, b).__repr__() for i, (hd, b) in enumerate(E)),
              'hypergraph does not hold the edges that were added')
    ctx.event('reachability')
    ctx.event('useful_nodes', len(T))
    ctx.sample({'edges': repr(edges), 'components': repr(got)})
