"""C29: coarse dependency analysis is sound."""
import itertools
import ref, gen, conv
from common import *
from ref import V
from check_c22 import junk, patterns, matches
from check_c23 import shape
from check_c27 import derive
from dyna import Program, Rule, canonicalize

RULE = ('random programs (mutual recursion, overlapping and nonground heads, constants / repeated variables / structure in heads, bodies and declarations, recursion that builds terms, built-ins, '
        'variables as factors, rules for declared inputs, items that are never derived), as written and with canonical variables; for each: the coarse nodes must be disjoint and cover every item '
        'that the reference derives from random conforming data exactly once, every concrete rule instance must be an edge of the graph and of the hypergraph, and the verdicts (cyclic, expansive, '
        'input-independent) and the decomposition are compared with the concrete dependency graph and with values computed component by component. Distinct by program and declarations')
CASES = (4200, 34000)
REQUIRED = {'dbs': 1500, 'items': 10000, 'instances': 20000, 'nodes': 5000, 'acyclic': 150, 'nonexpansive': 300, 'concrete_cycles': 150, 'concrete_expansions': 30,
            'independent_rules': 500, 'dependent_rules': 1500, 'presolved': 200, 'components': 2500, 'componentwise': 700, 'canonical': 250}
ASSUMPTIONS = ['reference evaluator', 'inputs satisfy the input declarations']
WALL = (60, 700)
CASE_LIMIT = (12, 30)


def atoms(b):
    return [y for y in b if (y.__class__ is tuple or y.__class__ is V) and not ref.is_builtin(y)]


def extra(rng, p):
    "shapes that stress the partition: chains of overlapping patterns, separate components, many heads"
    X, Y, Z = V('X'), V('Y'), V('Z')
    pool = list(p.dom) or [0, 1]
    args = pool[:2] + [X, Y, ('s', X), ('s', Y), ('s', ('s', X)), ('t', X, Y)]
    out = []
    fs = [('m', 2), ('m', 2), ('n', 1), ('o', 3)]
    for _ in range(rng.choice([1, 2, 3, 4])):
        f, n = rng.choice(fs)
        h = (f,) + tuple(rng.choice(args) for _ in range(n))
        b = [rng.choice([.5, .2])]
        for _ in range(rng.choice([0, 1, 1, 2])):
            g, m = rng.choice(fs + sorted(p.edb)[:2])
            b.append((g,) + tuple(rng.choice(args) for _ in range(m)))
        vs = set(ref.variables(b))
        if not set(ref.variables(h)) <= vs and rng.random() < .7: h = ref.apply({v: rng.choice(pool) for v in ref.variables(h) if v not in vs}, h)
        out.append((h, b))
    p.rules = list(p.rules) + out
    p.edb = set(p.edb) - {(h[0], len(h) - 1) for h, b in out}
    if rng.random() < .5: p.outputs = list(dict.fromkeys(list(p.outputs) + [(out[0][0][0], len(out[0][0]) - 1)]))
    rng.shuffle(p.rules)


def reach(edges, xs):
    seen = set(xs); agenda = list(seen)
    while agenda:
        for y in edges.get(agenda.pop(), ()):
            if y not in seen: seen.add(y); agenda.append(y)
    return seen


def run_case(ctx):
    rng = ctx.rng
    u = rng.random()
    if u < .2: p = rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_list, gen.fam_evenodd, gen.fam_chain])(rng)
    elif u < .4: p = shape(rng)
    else:
        p = gen.datalog(rng, nonground=rng.random() < .4, functions=rng.random() < .35, builtins=rng.random() < .2, maxarity=2, n_idb=rng.randint(1, 4))
        if rng.random() < .06: gen.add_varfactor(rng, p)
    if rng.random() < .3: junk(rng, p)
    if rng.random() < .4: extra(rng, p)
    if len(p.rules) > 14: ctx.skip('large')
    sigs = set(p.edb) | {(f, n) for f, n in ((y[0], len(y) - 1) for h, b in p.rules for y in atoms(b) if y.__class__ is tuple) if f == 'never'}
    ins = [q for s in sorted(sigs) if s in p.edb for q in patterns(rng, p, s, None, .25 if not p.edb_domains else 0)]
    derived_input = rng.random() < .12
    if derived_input:
        h = rng.choice(p.rules)[0]
        ins.append(gen.sig_term(h[0], len(h) - 1) if rng.random() < .5 else h)
    outs = [q for s in p.outputs for q in patterns(rng, p, s, None, .3)]
    rng.shuffle(ins)
    it, ot = '\n'.join(ref.show(q) + '.' for q in ins), '\n'.join(ref.show(q) + '.' for q in outs)
    P = conv.to_program(p.rules, inputs=it, outputs=ot)
    if rng.random() < .25:
        P = P.spawn([canonicalize(r) for r in P]); ctx.event('canonical')
        if rng.random() < .5: P = Program(list(P), inputs=Program([canonicalize(r) for r in P.inputs]), outputs=Program([canonicalize(r) for r in P.outputs]))
    src = ref.show_program(p.rules)
    ctx.notes.update(program=src, inputs=it, outputs=ot)

    cg = P._coarse_graph()
    nodes = {x: conv.from_term(x, {}) for x in cg.nodes}
    ctx.notes['nodes'] = [ref.show(y) for y in nodes.values()]
    ctx.event('nodes', len(nodes))
    for x, y in itertools.combinations(nodes.values(), 2):
        if ref.unify(ref.rename(x), ref.rename(y), {}) is not None: ctx.fail(f'the coarse nodes {ref.show(x)} and {ref.show(y)} overlap')

    def node(z):
        xs = [x for x, y in nodes.items() if ref.unify(ref.rename(y), z, {}) is not None]
        if len(xs) != 1: ctx.fail(f'{ref.show(z)} belongs to {len(xs)} coarse nodes', nodes=[ref.show(nodes[x]) for x in xs])
        if not ref.covers(nodes[xs[0]], z): ctx.fail(f'{ref.show(z)} is not covered by its node {ref.show(nodes[xs[0]])}')
        return xs[0]

    # static verdicts
    g, h = cg.g, cg.h
    cyc, exp = cg.possibly_cyclic(), cg.possibly_expansive()
    I, D = cg.split_input_dependent()
    Is, Ds, Ps = [[repr(conv_canon(conv.from_rule(r))) for r in q] for q in (I, D, P)]
    ctx.check(sorted(Is + Ds) == sorted(Ps), 'the two parts of the program are not a partition of its rules', I=str(I), D=str(D))
    indep = set(Is) - set(Ds)
    ctx.event('independent_rules', len(Is)); ctx.event('dependent_rules', len(Ds))
    comps = [(frozenset(xs), q) for xs, q in cg.scc_decomposition()]
    ctx.event('components', len(comps))
    seen = set()
    for xs, q in comps:
        ctx.check(not (xs & seen), 'a node occurs in two components', components=str([sorted(map(str, x)) for x, _ in comps]))
        seen |= xs
    # static edges: the nodes of a rule's subgoals are successors of the node of its head
    rules = p.rules
    key = [repr(conv_canon(r)) for r in rules]
    hyper = {}
    for x in list(h.incoming):
        for e in h.incoming[x]: hyper.setdefault((e.weight, e.head), set()).add(tuple(e.body))
    ctx.notes.update(cyclic=cyc, expansive=exp, independent=[ref.show_rule(r) for r, k in zip(rules, key) if k in indep])

    cyclic_seen = expansive_seen = False
    for _ in range(2):
        data = [(q, []) for q, b in p.facts(rng) if matches(ins, q)]
        if rng.random() < .3 and not p.edb_domains:
            data += [(ref.apply({v: rng.choice(list(p.dom) + [('s', ('new',))]) for v in ref.variables(q)}, q), []) for q in ins]
        data = [(q, b) for q, b in data if ref.ground(q)]
        data = list({q: (q, b) for q, b in data}.values())
        try:
            chart = derive(rules, data, rounds=6, cap=250)
            c = ref.Chart(chart)
            st = [0, 40000]
            inst = []
            for i, (hd, b) in enumerate(rules):
                ys = atoms(b); bs = [y for y in b if y.__class__ is tuple or y.__class__ is V]
                for s, _v in ref.join(list(bs), c, ref.BoolR, {}, True, st):
                    hx = ref.canon(ref.resolve(hd, s))
                    if hx not in chart: continue       # (beyond the last round)
                    bx = [ref.canon(ref.resolve(y, s)) for y in ys if y.__class__ is tuple]
                    inst.append((i, hx, bx))
                    if len(inst) > 4000: raise RefLimit('instances')
        except (RefLimit, RefInst, TypeError, ZeroDivisionError): ctx.event('db_skipped'); continue
        ctx.event('dbs'); ctx.event('items', len(chart)); ctx.event('instances', len(inst))
        ctx.notes['data'] = ref.show_program(data)
        at = {x: node(x) for x in chart}
        conc = {}
        for i, hx, bx in inst:
            H = at[hx]
            bn = []
            for z in bx:
                B = at.get(z) or node(z)
                bn.append(B)
                if B not in g.outgoing.get(H, ()):
                    ctx.fail(f'{ref.show(hx)} uses {ref.show(z)} by rule {i} but the coarse graph has no edge {ref.show(nodes[H])} -> {ref.show(nodes[B])}')
                # nonground: every item that overlaps
                conc.setdefault(hx, set()).add(z)
            if not any(y.__class__ is V for y in rules[i][1]) and tuple(bn) not in hyper.get((i, H), ()):
                ctx.fail(f'the instance {ref.show(hx)} <- {[ref.show(z) for z in bx]} of rule {i} is no edge of the coarse hypergraph', want=str((H, i, bn)), have=str(hyper.get((i, H))))
        isground = all(ref.ground(x) for x in chart)
        if not isground:
            # an instance of a chart item depends on what the item depends on
            zs = list(dict.fromkeys(z for bx in conc.values() for z in bx if z not in chart))[:300]
            for z in zs: conc[z] = conc.get(z, set()) | {x for x in chart if ref.unify(ref.rename(x), z, {}) is not None}
        R = {x: reach(conc, conc.get(x, ())) for x in set(conc) | set(chart)}
        cycle = next((x for x in chart if ref.ground(x) and x in R[x]), None)
        if cycle is not None:
            cyclic_seen = True
            ctx.check(cyc, f'the program is reported acyclic but {ref.show(cycle)} depends on itself' if not cyc else '')
        ctx.check(cyc or not any(x in R[x] for x in R if isground), 'reported acyclic')
        if isground:
            for i, hx, bx in inst:
                n = sum(hx == z or hx in R.get(z, ()) for z in bx)
                if n > 1:
                    expansive_seen = True
                    if not exp: ctx.fail(f'the program is reported non-expansive but {ref.show(hx)} expands into several copies of itself by rule {i}: {[ref.show(z) for z in bx]}')
                    break
        given = {q for q, b in data}
        for i, hx, bx in inst:
            if key[i] not in indep: continue
            hit = (given if hx in given else set()) or next((R.get(z, set()) & given | ({z} & given) for z in bx if (R.get(z, set()) | {z}) & given), None)
            if hit: ctx.fail(f'rule {i} is reported input-independent but its item {ref.show(hx)} uses the input {ref.show(min(hit, key=repr))}')
    ctx.event('acyclic', not cyc); ctx.event('nonexpansive', not exp)
    ctx.event('concrete_cycles', cyclic_seen); ctx.event('concrete_expansions', expansive_seen)

    # values
    facts = [(q, b) for q, b in p.facts(rng) if matches(ins, q)]
    ev = dict(max_joins=40000, max_items=500)
    try: want = ref.evaluate(rules + facts, **ev)
    except (RefLimit, RefInst, TypeError, ZeroDivisionError, OverflowError): ctx.event('not_convergent'); want = None
    if want is not None and not any(isinstance(v, float) and v - v != 0 for v in want.values()):
        ctx.notes['data'] = ref.show_program(facts)
        outsel = lambda ch: {z: v for q in outs for z, v in ref.query(ch, q).items()}
        try:
            tot = {}
            covered = seen
            for xs, q in comps:
                qr = conv.from_program(q)
                fs = [(f, b) for f, b in facts if node(f) in xs]
                r = ref.evaluate(qr + fs + [(k, [v]) for k, v in tot.items()], **ev)
                new = {k: v for k, v in r.items() if k not in tot}
                for k in new:
                    if node(k) not in xs: ctx.fail(f'component {sorted(map(str, xs))} derives {ref.show(k)}', component=str(q))
                tot.update(new)
        except (RefLimit, RefInst, TypeError, ZeroDivisionError, OverflowError): tot = None
        if tot is not None:
            ctx.event('componentwise')
            bad = ref.compare(outsel(want), outsel(tot), universe=p.dom)
            ctx.check(not bad, f'solving component by component: {bad and [(ref.show(k), x, y) for k, x, y in bad[:3]]}', components=[str(q) for _, q in comps] if bad else None)
        if Is and rng.random() < .6:
            try: ref.evaluate(conv.from_program(I), **ev); ok = True
            except (RefLimit, RefInst, TypeError, ZeroDivisionError, OverflowError): ok = False
            if ok:
                Q = cg.solve_input_independent()
                try: got = ref.evaluate(conv.from_program(Q) + facts, **ev)
                except (RefLimit, RefInst, TypeError, ZeroDivisionError, OverflowError): got = None
                if got is not None:
                    ctx.event('presolved')
                    bad = ref.compare(outsel(want), outsel(got), universe=p.dom)
                    ctx.check(not bad, f'solving the input-independent rules first: {bad and [(ref.show(k), x, y) for k, x, y in bad[:3]]}', after=str(Q) if bad else None)
    ctx.nontrivial((src, it, ot))
    ctx.sample({'program': src.split('\n'), 'nodes': [ref.show(y) for y in nodes.values()], 'cyclic': cyc, 'expansive': exp, 'independent': len(Is), 'components': len(comps)})


def conv_canon(r):
    h, b = r
    return ref.canon((('rule', h) + tuple(('c', repr(y)) if not (y.__class__ is tuple or y.__class__ is V) else y for y in b)))
