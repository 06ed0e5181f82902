"""C30: cost bounds bound the observed work."""
import itertools
import ref, gen, conv
from common import *
from ref import V
from check_c22 import junk, patterns, matches
from check_c23 import shape
from check_c27 import derive, Model, user_types, conforming, freeze
from dyna import Program, Rule, term_vars, pp
from dyna.analyze.runtime import Runtime, stype_bound, type_bound, Simplify, Symbol, Param

RULE = ('random programs (joins, recursion, constants, repeated variables, structure, built-ins, weights, variables as factors) with default or user-declared input types over unary and binary '
        'parameter relations (several types per functor, structured types) and rewrite theories that hold in the relations; on conforming random data the reference counts the items of each '
        'type, the answers to random queries in random modes, and for each rule the least number of prefix firings that any (even data-dependent) subgoal order can have; the '
        'symbolic bounds are evaluated at the sizes of the actual relations and must not be smaller; the degree of each rule must bound the exponent of the number of its instances. '
        'Distinct by program, types, theory and options')
CASES = (700, 16000)
REQUIRED = {'dbs': 800, 'size_bounds': 3500, 'finite_size': 2000, 'tight_size': 700, 'mode_bounds': 2000, 'finite_modes': 1400, 'runtime_bounds': 2500, 'finite_runtime': 1500,
            'tight_runtime': 60, 'weighted_rules': 800, 'fast': 900, 'instances': 4500, 'degrees': 2500, 'user_types': 300, 'structured': 120}
ASSUMPTIONS = ['reference evaluator', 'inputs satisfy the declared input types; the rewrite theory holds in the parameter relations', 'an answer to a query grounds its variables (ground data)']
WALL = (60, 700)
CASE_LIMIT = (12, 30)


def evaluate(b, sizes):
    "value of a bound at the sizes of the relations"
    if isinstance(b, Param): b = b.x
    if hasattr(b, 'free_symbols'):
        sub = {}
        for v in b.free_symbols:
            if v.name not in sizes: return None
            sub[v] = sizes[v.name]
        b = b.subs(sub)
    return float(b)


def least(body, chart, stats):
    """least number of prefix firings over all subgoal orders, chosen anew for each partial instance;
    a built-in runs when its variables are bound"""
    def opt(suffix, s):
        if not suffix: return 1
        best = float('inf')
        for y in suffix:
            rest = [z for z in suffix if z is not y]
            t = 0
            if ref.is_builtin(y):
                if not ref.ground(ref.resolve(y, s)): continue
                out = ref.run_builtin(y, s)
                if out is None: continue
            else:
                q = ref.resolve(y, s)
                out = []
                for k, v, g in chart.candidates(q):
                    stats[0] += 1
                    if stats[0] > stats[1]: raise RefLimit('orders')
                    s1 = ref.unify(q, k, s)
                    if s1 is not None: out.append(s1)
            for s1 in out:
                t += opt(rest, s1)
                if t >= best: break
            best = min(best, t)
        return 1 + best
    return opt(body, {})


def run_case(ctx):
    rng = ctx.rng
    u = rng.random()
    if u < .2: p = rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_list, gen.fam_chain])(rng)
    elif u < .35: p = shape(rng)
    else:
        p = gen.datalog(rng, functions=rng.random() < .35, builtins=rng.random() < .25, maxarity=2, n_idb=rng.randint(1, 3))
        if rng.random() < .1: gen.add_varfactor(rng, p)
    if len(p.rules) > 8 or max(len(b) for h, b in p.rules) > 5: ctx.skip('large')
    if p.edb & {(h[0], len(h) - 1) for h, b in p.rules}: ctx.skip('derived inputs')
    src = source_of(p.rules)
    user = rng.random() < .85 and not p.edb_domains and p.edb
    rel, theory, decls = {}, [], []
    opts = {}
    if rng.random() < .3: opts['basic'] = False
    if rng.random() < .2: opts['max_depth'] = rng.choice([2, 3])
    ins = [q for s in sorted(p.edb) for q in patterns(rng, p, s, None, .15 if not p.edb_domains and not user else 0)]
    outs = [gen.sig_term(*s) for s in p.outputs]
    it, ot = '\n'.join(ref.show(q) + '.' for q in ins), '\n'.join(ref.show(q) + '.' for q in outs)
    P = conv.to_program(p.rules, inputs=it, outputs=ot)
    kw = dict(opts)
    if user:
        p.tags = tuple(t for t in p.tags if t != 'freeok')
        rel, theory, decls = user_types(rng, p)
        kw['input_type'] = Program('\n'.join(ref.show_rule(r) for r in decls), inputs='k(_). w(_). r(_,_). $bound(_).')
        kw['rewrites'] = '\n'.join(theory)
        ctx.event('user_types'); ctx.event('structured', any(y.__class__ is tuple for h, b in decls for y in h[1:]))
    ctx.notes.update(program=src, inputs=it, options=str(opts), types='\n'.join(ref.show_rule(r) for r in decls), theory='\n'.join(theory))
    S = P.type_analysis(**kw)
    live = list(S.chart)
    types = [conv.from_rule(t) for t in live]
    if len(types) > 12: ctx.skip('many types')
    shown = [ref.show_rule(t) for t in types]
    ctx.notes.update(chart=shown)
    per = [stype_bound(S, t, frozenset(), t.body) for t in live]
    total = S.size()
    # queries in random modes
    qs = []
    heads = sorted({(h[0], len(h) - 1) for h, b in types})
    for _ in range(3):
        f, n = rng.choice(heads) if heads else ('none', 1)
        q = list(gen.sig_term(f, n))
        for i in range(1, n + 1):
            u = rng.random()
            if u < .1: q[i] = q[1]
            elif u < .2 and p.dom: q[i] = rng.choice(list(p.dom))
            elif u < .3: q[i] = ('s', q[i])
        q = tuple(q)
        vs = list(ref.variables(q))
        mode = [v for v in vs if rng.random() < .4]
        [Q] = Program(ref.show(q) + '.')
        order = vs_names(Q)
        mv = {order[vs.index(v)] for v in mode}
        qs.append((q, mode, type_bound(S, Q, V=mv)))
    # running time of each rule
    R, F = Runtime(S), Runtime(S, fast_mode=True)
    rts = []
    for i, r in enumerate(P):
        if len(r.body) > 4: continue
        rts.append((i, R(r), F(r) if rng.random() < .4 else None))
    whole = S.runtime()
    for _ in range(2):
        if user: facts = [(h, []) for h in conforming(rng, decls, rel, p)]
        else: facts = [(h, []) for h, b in p.facts(rng, density=rng.choice([None, 1.0])) if matches(ins, h)]
        try: chart = derive(p.rules, facts, rounds=6, cap=200)
        except (RefLimit, RefInst, TypeError, ZeroDivisionError): ctx.event('db_skipped'); continue
        if not all(ref.ground(x) for x in chart): ctx.event('nonground'); continue
        ctx.event('dbs')
        D = set()
        for x in chart:
            for a in x[1:] if x.__class__ is tuple else (): ref.subterms(a, D)
        consts = set()
        for h, b in p.rules:
            for y in [h] + b:
                for a in y[1:] if y.__class__ is tuple else (): ref.subterms(a, consts)
        D |= {x for x in consts if ref.ground(x)}
        sizes = {'$bound': len(D), '$free': float('inf'), '$any': float('inf')}
        for (f, n), xs in rel.items(): sizes[f] = len(xs)
        model = Model([x for xs in rel.values() for x in xs])
        data = ref.show_program(facts)
        info = dict(types=shown, data=data, params=str(rel))
        for t, tr, b in zip(types, shown, per):
            n = sum(bool(model.covering([t], x)) for x in chart)
            v = evaluate(b, sizes)
            if v is None: ctx.event('unknown_symbol'); continue
            ctx.event('size_bounds'); ctx.event('finite_size', v < float('inf')); ctx.event('tight_size', v == n and n > 0)
            if n > v: ctx.fail(f'the type {tr} has {n} items but its size bound {b} is {v}', **info)
        v = evaluate(total, sizes)
        if v is not None: ctx.check(len(chart) <= v, f'{len(chart)} items are derived but the size bound {total} of the program is {v}' if not len(chart) <= v else '', **info)
        for q, mode, b in qs:
            groups = {}
            for x in chart:
                s = ref.unify(ref.rename(q, m := {}), x, {})
                if s is not None:
                    k = tuple(ref.resolve(m[v], s) for v in mode)
                    groups[k] = groups.get(k, 0) + 1
            n = max(groups.values(), default=0)
            v = evaluate(b, sizes)
            if v is None: continue
            ctx.event('mode_bounds'); ctx.event('finite_modes', v < float('inf'))
            if n > v: ctx.fail(f'the query {ref.show(q)} with {[str(a) for a in mode]} bound has {n} answers but its bound {b} is {v}', **info)
        c = ref.Chart({x: True for x in chart})
        tot = 0
        for i, b, fb in rts:
            hd, body = p.rules[i]
            ys = list(dict.fromkeys(y for y in body if y.__class__ is tuple))
            st = [0, 25000]
            try: n = least(ys, c, st)
            except (RefLimit, RefInst, TypeError, ZeroDivisionError): ctx.event('orders_skipped'); continue
            tot += n
            v = evaluate(b, sizes)
            if v is not None:
                ctx.event('runtime_bounds'); ctx.event('tight_runtime', v == n and n > 1); ctx.event('finite_runtime', v < float('inf')); ctx.event('weighted_rules', any(y.__class__ is not tuple for y in body))
                if n > v: ctx.fail(f'rule {i} `{ref.show_rule(p.rules[i])}` needs at least {n} prefix firings but its running-time bound {b} is {v}', **info)
            if fb is not None:
                v = evaluate(fb, sizes)
                ctx.event('fast')
                if v is not None and n > v: ctx.fail(f'rule {i} `{ref.show_rule(p.rules[i])}` needs at least {n} prefix firings but its fast running-time bound {fb} is {v}', **info)
        v = evaluate(whole, sizes)
        if v is not None and len(rts) == len(p.rules) and tot > v: ctx.fail(f'the program needs at least {tot} prefix firings but its running-time bound {whole} is {v}', **info)
        # degrees: instances of a rule are determined by as many values as its degree
        degs = []
        for i, (hd, body) in enumerate(p.rules):
            deg = P.rules[i].analyzer.degree
            degs.append(deg)
            seen = set()
            vs = list(ref.variables([hd] + body))
            try:
                for s, _v in ref.join([y for y in body if y.__class__ is tuple or y.__class__ is V], c, ref.BoolR, {}, True, [0, 30000]):
                    seen.add(tuple(ref.canon(ref.resolve(v, s)) for v in vs))
            except (RefLimit, RefInst, TypeError, ZeroDivisionError): continue
            dom = {x for t in seen for x in t}
            ctx.event('degrees'); ctx.event('instances', len(seen))
            if len(seen) > max(1, len(dom)) ** deg: ctx.fail(f'rule {i} `{ref.show_rule(p.rules[i])}` of degree {deg} has {len(seen)} instances over {len(dom)} values', **info)
        if len(degs) == len(p.rules):
            ctx.check(tuple(P.degrees()) == tuple(sorted(degs, reverse=True)) and P.degree == max(degs, default=0), f'degrees {P.degrees()} / {P.degree} of rules with {degs}')
    ctx.nontrivial((src, it, str(opts), str(decls), str(theory)))
    ctx.sample({'program': src.split('\n'), 'types': shown[:10], 'sizes': [str(b) for b in per][:10], 'runtime': str(whole)})


def vs_names(Q):
    "distinct variables of a live fact, left to right"
    out = []
    def walk(t):
        if hasattr(t, 'fargs'):
            for a in t.args: walk(a)
        elif t.__class__.__name__ == 'Var' and not any(t is v for v in out): out.append(t)
    walk(Q.head)
    return out


def source_of(rules): return ref.show_program(rules)
