"""C15: cached views never go stale under program edits."""
import math
import ref, gen, conv, iso
from common import *
from dyna import Program, Term, Var, Rule
from dyna.rule import Rule

RULE = ('random histories (8-25 steps) over a live program that may itself be the result of a transformation: update (new rules, '
        'constants merging into existing facts also up to renaming of a non-ground head, sums cancelling), append, removal at random positions, '
        'changes of input/output declarations, interleaved with reads (lookup, user_lookup, indexing, equality with itself and mutants, hash, signature, symbols, '
        'gen_functor freshness, degree, degrees, prune in four variants, coarse nodes, text form, forward chaining); after each edit the rules are '
        'compared with a model and every read with the same read on a program freshly built from the current rules. Non-trivial = '
        'a history with a read before and after an edit; distinct by history')
CASES = (3350, 30000)
REQUIRED = {'edits': 12000, 'reads': 25000, 'merges': 1200, 'pops': 2500}
ASSUMPTIONS = ['the fresh program built from the same rules is the oracle for cached reads; edits are judged against an independent model']
WALL = (60, 700)
CASE_LIMIT = (8, 40)


def fresh_copy(p):
    "a program with the same rules (independent objects) and declarations"
    rules = [conv.to_rule(r) for r in conv.from_program(p)]
    def d(x): return None if x is None else Program([conv.to_rule(r) for r in conv.from_program(x)])
    return Program(rules, inputs=d(p.inputs), outputs=d(p.outputs), has_builtins=p.has_builtins)


def const_rhs(r):
    "value of a rule whose body is constant, else None"
    h, b = r
    v = 1
    for y in b:
        if y.__class__ in (tuple, V): return None
        v *= y
    return v


def norm(r):
    "what update() stores: constants folded"
    h, b = r
    v, xs = 1, []
    for y in b:
        if y.__class__ in (tuple, V): xs.append(y)
        else: v *= y
    if abs(v) <= 1e-7: return None
    if xs and v == 1: return (h, xs)
    return (h, [v] + xs)


def rnd_rule(rng, p, facts_only=False):
    vs = [V('X'), V('Y')]
    fs = [('p', 1), ('q', 2), ('r', 0), ('s', 1), ('w', 3)]
    f, n = rng.choice(fs)
    if facts_only or rng.random() < .55:
        h = (f,) + tuple(rng.choice([1, 2, ('a',), 'x'] + (vs if rng.random() < .25 else [])) for _ in range(n))
        u = rng.random()
        body = [] if u < .15 else [rng.choice([1, 2, -1, -2, .5, 3])] if u < .9 else [2, rng.choice([.5, 3])]
        return (h, body)
    body = []
    for _ in range(rng.randint(1, 3)):
        g, m = rng.choice(fs + [('in', 1), ('in', 2)])
        body.append((g,) + tuple(rng.choice(vs + vs + [1, ('a',)]) for _ in range(m)))
    if rng.random() < .3: body.insert(rng.randrange(len(body)+1), rng.choice([2, .5, 0, 1]))
    if rng.random() < .1: body.append(('!=', vs[0], vs[1]))
    bv = list(ref.variables(body))
    if rng.random() < .06:
        return (V('H') if not bv or rng.random() < .5 else rng.choice(bv), body)
    h = (f,) + tuple(rng.choice(bv + bv + [1, V('F')]) if bv else 1 for _ in range(n))
    return (h, body)


def canon_prog(p):
    return conv.from_program(p)


def prog_same(a, b):
    return iso.program_iso(conv.from_program(a), conv.from_program(b), key=iso.loose)


def opt(x, f):
    return None if x is None else f(x)


def pruned_same(a, b):
    return prog_same(a, b)


def reads(ctx, p, rng):
    "perform a random read on p and on a fresh copy; returns a label"
    q = fresh_copy(p)
    k = rng.choice(['lookup', 'lookup', 'user_lookup', 'stream', 'eq', 'eq', 'hash', 'signature', 'syms', 'degree', 'degrees', 'prune', 'prune_fast',
                    'prune_very_fast', 'prune_bottom_up', 'text', 'fc', 'gen', 'f2r', 'coarse', 'fold', 'noteq'])
    ctx.event('reads'); ctx.event('read_' + k)
    same = lambda a, b: ctx.check(a == b, f'{k}: {a!r} on the edited program, {b!r} on a fresh one', rules=source(conv.from_program(p)))
    if k in ('lookup', 'user_lookup', 'stream'):
        f, n = rng.choice([('p', 1), ('q', 2), ('r', 0), ('s', 1), ('w', 3), ('in', 1), ('zz', 1)])
        x = (f,) + tuple(rng.choice([V('A'), V('B'), 1, ('a',), 'x']) for _ in range(n))
        def run(P):
            t = conv.to_term(x, {})
            if k == 'lookup':
                out = []
                for r in P.lookup(t):
                    rr = conv.from_rule(r) if isinstance(r, Rule) else ('const', r)
                    out.append((r.i, ref.canon(('@', conv.from_term(t, {}))), rr))
                return out
            if k == 'user_lookup':
                return conv.from_program(P.user_lookup(t))
            m = {}
            return [(('@', conv.from_term(t, {}), ), [conv.from_term(b, {}) for b in v]) for v in P[t]]
        a, b = run(p), run(q)
        ctx.event('lookup_results', len(a))
        if k == 'lookup':
            ok = len(a) == len(b) and all(u[0] == v[0] and u[1] == v[1] and iso.rule_iso(u[2], v[2], iso.loose) for u, v in zip(a, b))
            # each i points at the rule it was taken from
            for u in a:
                if u[0] is not None:
                    ctx.check(0 <= u[0] < len(p), 'lookup reports a rule index that does not exist')
                    r0 = conv.from_rule(p.rules[u[0]])
                    ctx.check(ref.unifiable(('@', r0[0]), ('@', x)), 'lookup reports the index of a rule that does not match', rules=source(conv.from_program(p)))
        else:
            ok = iso.program_iso(a, b, iso.loose)
        ctx.check(ok, f'{k}({ref.show(x)}) differs between the edited program and a fresh one', edited=repr(a)[:600], fresh=repr(b)[:600], rules=source(conv.from_program(p)))
    elif k == 'eq':
        ctx.check(p == q and q == p, 'edited program differs from a fresh one with the same rules', rules=source(conv.from_program(p)))
        ctx.check(hash(p) == hash(q), 'hash differs from a fresh program with the same rules')
    elif k == 'noteq':
        rs = conv.from_program(p)
        extra = (('p', 77), [3])
        m = Program([conv.to_rule(r) for r in rs + [extra]])
        ctx.check(not (p == m) and not (m == p), 'edited program equals a program with one more rule')
        if rs:
            m = Program([conv.to_rule(r) for r in rs[1:]])
            ctx.check(not (p == m), 'edited program equals a program with one rule less', rules=source(rs))
    elif k == 'hash': same(hash(p), hash(q))
    elif k == 'signature': same(p.signature, q.signature)
    elif k == 'syms':
        same(set(p.syms), set(q.syms))
    elif k == 'gen':
        f = p._gen_functor('p')
        same(f, q._gen_functor('p'))
    elif k == 'degree': same(p.degree, q.degree)
    elif k == 'degrees': same(tuple(p.degrees()), tuple(q.degrees()))
    elif k in ('prune', 'prune_fast', 'prune_very_fast', 'prune_bottom_up'):
        if p.outputs is None or p.inputs is None or any(r.head.__class__ is Var for r in p.rules): return k
        kw = rng.choice([{}, {}, {'specialize': False}]) if k == 'prune' else {}
        try:
            a = getattr(p, k)(**kw)
        except (AssertionError, NotImplementedError):
            try: getattr(q, k)(**kw)
            except (AssertionError, NotImplementedError): return k
            ctx.fail(f'{k} refused on the edited program only', rules=source(conv.from_program(p)))
        b = getattr(q, k)(**kw)
        ctx.check(prog_same(a, b), f'{k} answers differently than on a fresh program', rules=source(conv.from_program(p)),
                  edited=source(conv.from_program(a)), fresh=source(conv.from_program(b)), outputs=opt(p.outputs, lambda o: o.plaintext()))
    elif k == 'text':
        import re
        rn = lambda t: re.sub(r'\$(Gen|X)\d+', '$V', t)
        same(rn(p.plaintext()), rn(q.plaintext()))
    elif k == 'fold':
        a, b = p.constant_folding(), q.constant_folding()
        ctx.check(prog_same(a, b), 'constant_folding differs', rules=source(conv.from_program(p)))
    elif k == 'f2r':
        for f in ('p', 'q', 'r', 's', 'w', 'zz'):
            same(list(p.f2r(f)), list(q.f2r(f)))
    elif k == 'coarse':
        if p.inputs is None or any(r.head.__class__ is Var for r in p.rules): return k
        try: a = {repr(x) for x in p.coarse_nodes()}
        except (AssertionError, NotImplementedError): return k
        same(a, {repr(x) for x in q.coarse_nodes()})
    elif k == 'fc':
        a, b = p.fc(max_iter=2), q.fc(max_iter=2)
        ctx.check(prog_near(a, b), 'forward chaining differs from a fresh program', rules=source(conv.from_program(p)),
                  edited=source(conv.from_program(a)), fresh=source(conv.from_program(b)))
    return k


def prog_near(a, b):
    def kk(x):
        return round(x, 6) if isinstance(x, float) and not math.isinf(x) else x
    return iso.program_iso(conv.from_program(a), conv.from_program(b), key=kk)


def run_case(ctx):
    rng = ctx.rng
    rules = [rnd_rule(rng, None) for _ in range(rng.randint(0, 6))]
    if rng.random() < .3:
        pp = gen.datalog(rng, recursive=False, maxarity=2)
        rules = pp.rules + pp.facts(rng)
    outs = [('p', V('O')), ('q', V('O1'), V('O2')), ('r',)]
    ins = [('in', V('I')), ('in', V('I1'), V('I2'))]
    def mkd(xs): return Program([conv.to_rule((x, [])) for x in xs])
    decl = rng.random() < .7
    p = conv.to_program(rules)
    if decl:
        p.set_input_types(mkd(ins)); p.set_output_types(mkd(rng.sample(outs, rng.randint(1, 3))))
    u = rng.random()
    if u < .1: p = p.sort()
    elif u < .2: p = p.fresh()
    elif u < .3: p = p.constant_folding()
    elif u < .35: p = p + ''
    model = conv.from_program(p)
    hist = ['start: ' + source(model)]
    ctx.notes['history'] = hist
    read_before = edited_after_read = False
    for step in range(rng.randint(8, 25)):
        if rng.random() < .5:
            u = rng.random()
            if u < .62 or (not model and u < .9):
                r = rnd_rule(rng, None)
                if model and rng.random() < .4:                      # aim at an existing fact
                    facts = [m for m in model if const_rhs(m) is not None]
                    if facts:
                        h, b = rng.choice(facts)
                        r = (ref.rename(h), [rng.choice([1, -const_rhs((h, b)), 2])])
                live = conv.to_rule(r)
                hist.append('update ' + ref.show_rule(r))
                before = len(p)
                if rng.random() < .5: p.update(live.head, *live.body)
                else: p.append(live)
                n = norm(r)
                if n is not None:
                    c = const_rhs(n)
                    hit = None
                    if c is not None:
                        for i, m in enumerate(model):
                            if const_rhs(m) is not None and len(m[1]) <= 1 and (iso.terms_iso(m[0], n[0], iso.loose)):
                                hit = i; break
                    if hit is None: model.append(n)
                    else:
                        cands = [i for i, m in enumerate(model) if const_rhs(m) is not None and len(m[1]) <= 1 and iso.terms_iso(m[0], n[0], iso.loose)]
                        ctx.event('merges')
                        # any of the matching facts may absorb the constant
                        alts = []
                        for i in cands:
                            m2 = list(model); m2[i] = (m2[i][0], [const_rhs(m2[i]) + c]); alts.append(m2)
                        now = conv.from_program(p)
                        ok = [a for a in alts if iso.program_iso(a, now, iso.loose)]
                        ctx.check(ok, 'updating an existing fact gave the wrong rules', history=hist, now=source(now), want=source(alts[0]))
                        model = ok[0]
                hist[-1] += f'  [{before}->{len(p)}]'
            elif u < .85 and model:
                i = rng.randrange(len(p))
                was = conv.from_program(p)
                r = p.pop(i)
                hist.append(f'pop {i}')
                ctx.event('pops')
                ctx.check(iso.rule_iso(conv.from_rule(r), was[i], iso.loose), 'pop returned another rule', history=hist)
                model = was[:i] + was[i+1:]
            elif u < .93:
                o = rng.sample(outs, rng.randint(1, 3))
                hist.append(f'outputs {[ref.show(x) for x in o]}')
                p.set_output_types(mkd(o)); ctx.event('declarations')
            elif decl:
                o = rng.sample(ins, rng.randint(1, 2))
                hist.append(f'inputs {[ref.show(x) for x in o]}')
                p.set_input_types(mkd(o)); ctx.event('declarations')
            ctx.event('edits')
            if read_before: edited_after_read = True
            now = conv.from_program(p)
            ctx.check(iso.program_iso(model, now, iso.loose), 'the rules after an edit are not the expected ones', history=hist, now=source(now), want=source(model))
            model = now
        for _ in range(rng.choice([0, 1, 2])):
            hist.append('read ' + str(reads(ctx, p, rng)))
            read_before = True
    if edited_after_read: ctx.nontrivial(tuple(hist))
    ctx.sample({'history': hist[:12]})
