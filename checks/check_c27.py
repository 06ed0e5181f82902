"""C27: type analysis covers everything that can be derived."""
import itertools
import ref, gen, conv, xform
from common import *
from ref import V
from check_c22 import junk, patterns, matches
from check_c23 import shape
from dyna import Program

RULE = ('random programs (nonground rules, free heads, dropped locals, constants, repeated variables, structure, recursion that builds terms, built-ins, mutual recursion) with input types '
        'that are default bindings, or user types with unary and binary parameter relations, several overlapping types per functor, structured heads and free arguments; rewrite theories '
        '(disjointness, inclusion, singleton, functional dependency, irreflexivity, transitivity) that hold in the parameter relations; semi-naive and generalizing strategies, depth limits, '
        'with and without binding states; a family whose widening steps postpone delayed constraints; conforming random data (also nonground inputs); each item the reference derives must be covered by a type whose constraints hold; types reported '
        'disjoint share no item; useful types cover items that contribute to an output; the intersection with a query covers matching items. Distinct by program, types, theory, options')
CASES = (900, 20000)
REQUIRED = {'dbs': 1100, 'items': 6000, 'nonground_items': 250, 'constrained': 1500, 'user_types': 150, 'theory_rules': 100, 'basic': 300, 'general': 120, 'useful': 60, 'contributing': 200,
            'intersected': 700, 'disjointness': 1000, 'truncated': 60}
ASSUMPTIONS = ['reference evaluator', 'inputs satisfy the declared input types; the rewrite theory holds in the parameter relations']
WALL = (60, 700)
CASE_LIMIT = (12, 30)


class Uncovered(Exception): pass


def freeze(item):
    "variables of a nonground item as distinct constants"
    return ref.apply({v: ('$v', i) for i, v in enumerate(dict.fromkeys(ref.variables(item)))}, item)


def inside(z, t):
    return z == t or (t.__class__ is tuple and any(inside(z, y) for y in t[1:]))


def frozen(x):
    return x.__class__ is tuple and (x[0] == '$v' or any(frozen(y) for y in x[1:]))


def parts(t, acc):
    if t.__class__ is tuple:
        if t[0] == '$v': acc.add(t)
        for y in t[1:]: parts(y, acc)
    return acc


def apart(s):
    seen = set()
    for v in s:
        p = parts(ref.resolve(v, s), set())
        if p & seen: return False
        seen |= p
    return True


class Model:
    "interpretation of the constraints on one input"
    def __init__(self, facts):
        self.chart = ref.Chart({h: True for h in facts})

    def holds(self, body, s):
        rest = []; free = []
        for y in body:
            if y.__class__ is not tuple: continue
            if y[0] in ('$bound', '$free') and len(y) == 2:
                x = ref.resolve(y[1], s)
                if y[0] == '$bound':
                    if frozen(x) or not ref.ground(x): return False
                elif x.__class__ is tuple and x[0] == '$v': free.append((y[1], x))
                elif ref.walk(y[1], {}).__class__ is V: return False
            else: rest.append(y)
        for v, x in free:        # a free variable is distinct from everything else in the item
            if any(u is not v and inside(x, ref.resolve(u, s)) for u in s if u is not v): return False
        if any(frozen(ref.resolve(y, s)) for y in rest if not ref.is_builtin(y)): return False
        try:
            for _ in ref.join(rest, self.chart, ref.BoolR, s, True, [0, 20000]): return True
        except RefInst: return True
        except TypeError: return False
        return False

    def covering(self, types, item):
        z = freeze(item)
        out = []
        for h, b in types:
            s = ref.unify(h, z, {})
            if s is not None and self.holds(b, s): out.append((h, b))
        return out


def derive(rules, facts, rounds=7, cap=500):
    "items derived within a few rounds, and the rule instances that derive them"
    chart = {}
    rules = [(h, [y for y in b if y.__class__ is tuple or y.__class__ is V]) for h, b in rules]
    for _ in range(rounds):
        new = {}
        c = ref.Chart(chart)
        st = [0, 60000]
        for h, b in rules + facts:
            for s, _v in ref.join(list(b), c, ref.BoolR, {}, True, st):
                x = ref.canon(ref.resolve(h, s))
                if ref.size(x) <= 30: new[x] = True
                if len(new) > cap: raise RefLimit('items')
        if new.keys() == chart.keys(): return chart
        chart = new
    return chart


def contributing(rules, chart, outs):
    "ground items used in the derivation of an output"
    c = ref.Chart(chart)
    seen = {x for x in chart if matches(outs, x)}
    agenda = list(seen)
    while agenda:
        x = agenda.pop()
        for h, b in rules:
            b = [y for y in b if y.__class__ is tuple]
            s = ref.unify(h, x, {})
            if s is None: continue
            for t, _ in ref.join(b, c, ref.BoolR, s, True, [0, 60000]):
                for y in b:
                    if ref.is_builtin(y): continue
                    z = ref.canon(ref.resolve(y, t))
                    if z in chart and z not in seen: seen.add(z); agenda.append(z)
    return seen


def user_types(rng, p):
    "parameter relations, a theory that holds in them, and input types over them"
    pool = list(dict.fromkeys(p.dom)) or [0, 1]
    rel = {('k', 1): [], ('w', 1): [], ('r', 2): []}
    rel['k', 1] = [('k', d) for d in pool if rng.random() < .6]
    ks = [x[1] for x in rel['k', 1]]
    theory = []
    u = rng.random()
    if u < .3:
        rel['w', 1] = [('w', d) for d in pool if d not in ks]
        theory.append('$fail :- k(X), w(X).')
    elif u < .5:
        rel['w', 1] = [('w', d) for d in pool if d in ks or rng.random() < .4]
        theory.append('w(X) :- k(X).')
    else: rel['w', 1] = [('w', d) for d in pool if rng.random() < .6]
    if rng.random() < .2 and len(ks) <= 1: theory.append('(X=Y) :- k(X), k(Y).')
    for d in pool:
        if rng.random() < .15: theory.append(f'$fail :- k({ref.show(d)}).' if d not in ks else f'k({ref.show(d)}).')
    u = rng.random()
    if u < .3:
        f = {d: rng.choice(pool) for d in pool if rng.random() < .8}
        rel['r', 2] = [('r', a, b) for a, b in f.items()]
        theory.append("(Y=Z) :- r(X,Y), r(X,Z).")
    elif u < .6:
        rel['r', 2] = [('r', a, b) for i, a in enumerate(pool) for b in pool[i+1:] if rng.random() < 1]
        theory.append('$fail :- r(X,X).')
        if rng.random() < .5: theory.append('r(X,Z) :- r(X,Y), r(Y,Z).')
        if rng.random() < .3: theory.append('$fail :- r(X,Y), r(Y,X).')
    else:
        rel['r', 2] = [('r', a, b) for a in pool for b in pool if rng.random() < .5]
    if rng.random() < .2:
        have = {a for _, a, b in rel['r', 2]}
        if have <= set(ks): theory.append('k(X) :- r(X,Y).')
    if rng.random() < .15: theory = []
    rng.shuffle(theory)
    types = []
    for f, n in sorted(p.edb):
        for _ in range(rng.choice([1, 1, 1, 2])):
            t = list(gen.sig_term(f, n)); b = []
            vs = [V(f'A{i}') for i in range(n)]
            for i in range(n):
                u = rng.random()
                t[i + 1] = vs[i]
                if u < .08 and i: t[i + 1] = vs[0]
                elif u < .16: t[i + 1] = ('s', vs[i])
                elif u < .2: t[i + 1] = rng.choice(pool)
            for v in dict.fromkeys(ref.variables(tuple(t))):
                u = rng.random()
                if u < .45: b.append(('k', v))
                elif u < .75: b.append(('w', v))
                elif u < .82 and 'freeok' in p.tags: b.append(('$free', v))
                else: b.append(('$bound', v))
            vs = [v for v in dict.fromkeys(ref.variables(tuple(t))) if ('$free', v) not in b]
            if len(vs) > 1 and rng.random() < .4:
                b.append(('r',) + tuple(rng.sample(vs, 2)))
                b = [y for y in b if y[0] in ('r', '$free') or rng.random() < .5]
                b += [('$bound', v) for v in vs if not any(v in y[1:] for y in b)]
            types.append((tuple(t), b))
    return rel, theory, types


def conforming(rng, types, rel, p):
    "random input items that satisfy the input types"
    pool = list(dict.fromkeys(p.dom)) or [0, 1]
    model = ref.Chart({x: True for xs in rel.values() for x in xs})
    out = []
    for h, b in types:
        sols = []
        bs = [y for y in b if y[0] not in ('$bound', '$free')]
        fr = [y[1] for y in b if y[0] == '$free']
        vs = [v for v in dict.fromkeys(ref.variables(h)) if v not in fr]
        for vals in itertools.islice(itertools.product(pool + ([('s', pool[0])] if rng.random() < .3 else []), repeat=len(vs)), 200):
            s = dict(zip(vs, vals))
            if any(True for _ in ref.join([ref.apply(s, y) for y in bs], model, ref.BoolR, {}, True, [0, 5000])): sols.append(ref.apply(s, h))
        rng.shuffle(sols)
        out += sols[:rng.choice([0, 2, 4, 6])]
    return out


def delayed(rng):
    "a cycle of items that start as a constant and are widened, one by one, only after everything has been derived once"
    X, Y = V('X'), V('Y')
    n = rng.choice([3, 4, 5])
    dom = gen.domain(rng)
    c = rng.choice(dom)
    two = rng.random() < .3
    it = lambda i, x, y=None: (f'p{i}', x, y) if two else (f'p{i}', x)
    rules = [(it(0, c, c), [('u0', c)] if rng.random() < .5 else [.5])]
    for i in range(1, n + 1): rules.append((it(i, X, Y), [it(i - 1, X, Y)] + ([('u1',)] if rng.random() < .3 else []) + [.5]))
    u = rng.random()
    if u < .5: rules.append((it(0, X, c), [it(n, Y, V('Z')), ('u0', X), .1]))
    elif u < .8: rules.append((it(0, ('s', c), c), [it(n, c, Y), .1]))
    else: rules.append((it(0, rng.choice([d for d in dom if d != c] or [c]), c), [it(n, c, Y), .1]))
    rng.shuffle(rules)
    hs = {(h[0], len(h) - 1) for h, b in rules}
    edb = {(y[0], len(y) - 1) for h, b in rules for y in b if y.__class__ is tuple} - hs
    return gen.Prog(rules, edb, [(f'p{rng.randint(1, n)}', 2 if two else 1)], dom, gen.w_small, ('delayed',))


def run_case(ctx):
    rng = ctx.rng
    u = rng.random()
    if u > .93: p = delayed(rng)
    elif u < .15: p = rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_list, gen.fam_evenodd, gen.fam_chain])(rng)
    elif u < .45: p = shape(rng)
    else:
        p = gen.datalog(rng, nonground=rng.random() < .5, functions=rng.random() < .4, builtins=rng.random() < .2, maxarity=2, n_idb=rng.randint(1, 3))
    if rng.random() < .2: junk(rng, p)
    if len(p.rules) > 8: ctx.skip('large')
    if p.edb & {(h[0], len(h) - 1) for h, b in p.rules}: ctx.skip('derived inputs')
    if not any(ref.is_builtin(y) for h, b in p.rules for y in b): p.tags += ('freeok',)
    src = source(p.rules)
    user = rng.random() < .5 and not p.edb_domains and p.edb
    rel, theory, decls = {}, [], []
    opts = {}
    u = rng.random()
    if u < (.8 if 'delayed' in p.tags else .35): opts['basic'] = False
    if rng.random() < .35: opts['max_depth'] = rng.choice([1, 2, 3])
    if rng.random() < .2: opts['use_insts'] = False
    ranged = all(set(ref.variables(h)) <= set(ref.variables(b)) for h, b in p.rules)
    ins = [q for s in sorted(p.edb) for q in patterns(rng, p, s, None, .2 if not p.edb_domains and not user else 0)]
    outs = [gen.sig_term(*s) for s in p.outputs]
    it, ot = '\n'.join(ref.show(q) + '.' for q in ins), '\n'.join(ref.show(q) + '.' for q in outs)
    P = conv.to_program(p.rules, inputs=it, outputs=ot)
    kw = dict(opts)
    if user:
        rel, theory, decls = user_types(rng, p)
        kw['input_type'] = Program('\n'.join(ref.show_rule(r) for r in decls), inputs='k(_). w(_). r(_,_). $bound(_). $free(_).' if rng.random() < .5 else 'k(_). w(_). r(_,_). $bound(_).')
        kw['rewrites'] = '\n'.join(theory)
        ctx.event('user_types'); ctx.event('theory_rules', len(theory))
    if user and any(y[0] == '$free' for h, b in decls for y in b):
        ranged = False; kw['input_type'] = Program('\n'.join(ref.show_rule(r) for r in decls), inputs='k(_). w(_). r(_,_). $bound(_). $free(_).')
        ctx.event('free_inputs')
    useful = ranged and rng.random() < .2
    ctx.notes.update(program=src, inputs=it, outputs=ot, options=str(opts), types='\n'.join(ref.show_rule(r) for r in decls), theory='\n'.join(theory), useful=useful)
    T = P.usefulness_analysis(**kw) if useful else P.type_analysis(**kw)
    types = [conv.from_rule(t) for t in T.chart]
    shown = [ref.show_rule(t) for t in types]
    ctx.notes.update(chart=shown)
    ctx.event('useful' if useful else 'general' if opts.get('basic') is False else 'basic')
    if any(v.name and 'Trunc' in str(v.name) for h, b in types for v in ref.variables(h)): ctx.event('truncated')
    disjoint = T.is_disjoint() if len(types) <= 12 else False
    if opts.get('basic') is False and not useful and len(types) <= 12 and opts.get('use_insts', True): ctx.check(disjoint, 'generalized types overlap', types=shown)
    qs = []
    heads = sorted({(h[0], len(h) - 1) for h, b in types if h.__class__ is tuple})
    for _ in range(2):
        if useful or not heads: break
        f, n = rng.choice(heads)
        q = list(gen.sig_term(f, n))
        pool = list(p.dom) + [('s', V('B'))] + [q[1:][0]] if n else [0]
        for i in range(1, n + 1):
            if rng.random() < .4: q[i] = rng.choice(pool)
        q = tuple(q)
        b = []
        if user and rng.random() < .4 and ref.variables(q): b = [(rng.choice('kw'), rng.choice(list(ref.variables(q))))]
        I = T.intersect(Program(ref.show_rule((q, b))))
        qs.append((q, b, [conv.from_rule(t) for t in I]))
    for _ in range(2):
        if user: facts = [(h, []) for h in conforming(rng, decls, rel, p)]
        else: facts = [(h, []) for h, b in p.facts(rng) if matches(ins, h)]
        if not user and rng.random() < .3 and not p.edb_domains:
            facts += [(ref.apply({v: rng.choice(list(p.dom) + [('s', ('new',))]) for v in ref.variables(q)}, q), []) for q in ins]
        try: chart = derive(p.rules, facts, rounds=14 if "delayed" in p.tags else 7)
        except (RefLimit, RefInst, TypeError, ZeroDivisionError): ctx.event('db_skipped'); continue
        model = Model([x for xs in rel.values() for x in xs])
        ctx.event('dbs')
        items = contributing(p.rules, chart, outs) if useful else set(chart)
        if useful: ctx.event('contributing', len(items))
        data = ref.show_program(facts)
        for x in sorted(items, key=repr)[:150]:
            cov = model.covering(types, x)
            ctx.event('items'); ctx.event('nonground_items', not ref.ground(x))
            ctx.event('constrained', any(y[0] != '$bound' for h, b in cov for y in b if y.__class__ is tuple))
            if not cov:
                ctx.fail(f'{"contributing" if useful else "derived"} item {ref.show(x)} is covered by no type', types=shown, data=data, params=str(rel))
            if disjoint:
                ctx.event('disjointness')
                # (distinct variables of a type do not share a free variable of the item)
                cov = [t for t in cov if apart(ref.unify(t[0], freeze(x), {}))]
                if len(cov) > 1: ctx.fail(f'types reported disjoint share {ref.show(x)}', types=[ref.show_rule(t) for t in cov], data=data, params=str(rel))
            for q, b, I in qs:
                s = ref.unify(ref.rename((q,)+tuple([('b',)+tuple(b)])) [0], x, {}) if not b else None
                if b:
                    m = {}
                    q1 = ref.rename(q, m); b1 = [ref.apply(m, y) for y in b]
                    s = ref.unify(q1, x, {})
                    if s is None or not model.holds(b1, s): continue
                elif s is None: continue
                z = ref.resolve(x, s)
                if not ref.ground(x) and b: continue
                ctx.event('intersected')
                if not model.covering(I, z):
                    ctx.fail(f'item {ref.show(z)} matches the query {ref.show_rule((q, b))} but no type of the intersection', types=shown, intersection=[ref.show_rule(t) for t in I], data=data, params=str(rel))
    ctx.nontrivial((src, it, str(opts), str(decls), str(theory)))
    ctx.sample({'program': src.split('\n'), 'types': shown[:10], 'options': str(opts), 'theory': theory})
