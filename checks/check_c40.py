"""C40: derivation mappings of speculation and left-corner programs keep item, value and measure."""
import io, contextlib, warnings
from collections import Counter
import z3
import ref, gen, conv, xform, foldwork
from common import *
from dyna import Program, Derivation
from check_c31 import enumerate_ref, tree_of, norm_tree, show_tree, size, leaves, Many
from check_c32 import distinct, norm_rules, value
from check_c38 import number
import check_c19

RULE = ('random programs with their data as rules (recursive, self-joins, several derivations per item, structured terms), divisors that are items, general and partly instantiated patterns, '
        'variables, and random slash positions (also at constants, also several per program); every derivation of bounded height is mapped into the slashed or left-corner program; the image is '
        'checked node by node against the rules of the target, and must derive the same item with the same leaves and value, be the image of no other derivation and have exactly the same '
        'unit and symbolic measure; with finitely many derivations the image is compared with an independent enumeration of the target. Distinct by program, divisor and positions')
CASES = (2150, 20000)
REQUIRED = {'slash': 380, 'lct': 110, 'mapped_slash': 2500, 'mapped_lct': 150, 'spine': 700, 'measured': 1200, 'onto': 100}
ASSUMPTIONS = ['reference enumeration of derivations', 'the left-corner mapping is partial: derivations that it refuses are counted, not judged']
WALL = (60, 700)



def run_case(ctx):
    rng = ctx.rng
    warnings.simplefilter('ignore')
    p = check_c19.prog(rng)
    facts = p.facts(rng); rng.shuffle(facts)
    facts = facts[:rng.choice([3, 5, 7])]
    if any(y.__class__ is tuple and ref.is_builtin(y) for h, b in p.rules for y in b): ctx.skip('builtins')
    rules = p.rules + list({h: (h, b) for h, b in facts}.values())
    if any(not set(ref.variables(h)) <= set(ref.variables(b)) for h, b in rules): ctx.skip('not range-restricted')
    if len(rules) > 16: ctx.skip('large')
    src = source(rules)
    outs = '\n'.join(ref.show(gen.sig_term(*s)) + '.' for s in sorted({(h[0], len(h) - 1) for h, b in rules}))
    P = conv.to_program(rules, inputs='', outputs=outs)
    if not distinct(P): ctx.skip('equal rules')
    whole = gen.Prog(rules, p.edb, p.outputs, p.dom, p.weights)
    how = rng.choice(['slash', 'slash', 'slash', 'lct'])
    x = check_c19.divisor(rng, whole) if how == 'slash' or rng.random() < .6 else V('X')
    pos = check_c19.positions(rng, whole, x)
    if how == 'lct' and rng.random() < .7:                       # all the way down
        pos = {i: 0 for i, (h, b) in enumerate(rules) if b and check_c19.legal(x, b[0])}
    ctx.notes.update(program=src, divisor=ref.show(x), positions=pos, how=how)
    try: S = P.slash(conv.to_term(x, {}), positions=pos) if how == 'slash' else P.lct(pos, x=conv.to_term(x, {}))
    except AssertionError:
        ctx.skip('refused')
    T = rng.choice([3, 4, 5])
    R0, RS = norm_rules(conv.from_program(P)), norm_rules(conv.from_program(S))
    if not distinct(S): ctx.skip('equal rules after')
    try: want, finite = enumerate_ref(R0, None)
    except (Many, RefLimit): finite = False
    if not finite:
        try: want, _ = enumerate_ref(R0, T)
        except (Many, RefLimit): ctx.skip('too many derivations')
    if not want or sum(size(t) for ts in want.values() for t in ts) > 800: ctx.skip('too many derivations')
    ctx.event(how)
    ctx.notes['target'] = ref.show_program(RS)
    # a derivation is in the domain of the slash mapping when every item in it is of the divisor's type or could not be
    general = x.__class__ is not tuple or len(set(x[1:])) == len(x) - 1 and not any(y.__class__ is tuple or not ref.variables(y) for y in x[1:])
    total = how == 'slash' and (general or not any(h[0] == x[0] and len(h) == len(x) for h, b in rules))
    M = [(P.unit_measure, [])]
    if rng.random() < .5:
        m2 = P.measure
        weights = [rng.choice([1, 2, 3, 7, 20, 100]) for _ in P]
        M.append((m2, [(m2(P).m[i].lo, z3.IntVal(w)) for i, w in enumerate(weights)]))
    seen, complete = {}, True
    for d in P.derivations(None if finite else T, 'X'):
        if not isinstance(d, Derivation): continue
        t = norm_tree(tree_of(ctx, d, P, R0))
        try:
            with contextlib.redirect_stdout(io.StringIO()): e = S.transform(d)
        except Exception as err:
            if how == 'lct' or (isinstance(err, AssertionError) and not total):
                ctx.event(f'{how}_refused'); complete = False; continue
            raise
        te = norm_tree(tree_of(ctx, e, S, RS))
        info = dict(source=show_tree(t), image=show_tree(te))
        ctx.event('mapped_' + how)
        ctx.event('spine', "('/'" in str(te))
        ctx.check(te[1] == t[1], 'image derives another item', **info)
        ctx.check(Counter(map(str, leaves(te))) == Counter(map(str, leaves(t))), 'the leaves changed', **info)
        ctx.check(abs(value(d, ref.Real) - value(e, ref.Real)) <= 1e-9 * max(1, abs(value(d, ref.Real))), 'the value changed', **info)
        ctx.check(te not in seen, 'two derivations have the same image', other=show_tree(seen.get(te, t)), **info)
        seen[te] = t
        if len(seen) <= 40:
            for k, (m, subs) in enumerate(M):
                a, b = [(number(x.lo, subs), number(x.hi, subs)) for x in (m(P).derivation_measure(d), m(S).derivation_measure(e))]
                ctx.check(a == b, f'the measure changed: {b}, was {a}', kind=['unit', 'symbolic'][k], **info)
                ctx.event('measured')
    if seen and finite and complete and total:
        # the base rule x/x is replaced by its instances, the enumeration is a ground one
        k = S.base._index
        fn = RS[k][0][0]
        inst = [(fn, a, a) for a in list(want) + [y for h, b in R0 for y in b if y.__class__ is not tuple] if a.__class__ is not tuple or ref.covers(x, a)]
        inst = [(h, []) for h in dict.fromkeys(inst)] if any(True for _ in ref.variables(x)) else [RS[k]]
        ground = [r if i != k else (('$none',), [('$none',)]) for i, r in enumerate(RS)] + inst
        try: w, fin = enumerate_ref(ground, None)
        except (Many, RefLimit): fin = False
        if fin:
            heads = {(h[0], len(h) - 1) for h, b in R0}
            back = lambda t: t if t[0] in ('const', 'builtin') else (k if t[0] >= len(RS) else t[0], t[1], tuple(back(y) for y in t[2]))
            w = {norm_tree(back(t)) for h, ts in w.items() for t in ts if (h[0], len(h) - 1) in heads}
            missing = w - set(seen)
            ctx.check(not missing, 'a derivation of the target is not the image of any', missing=[show_tree(t) for t in list(missing)[:2]])
            ctx.check(not set(seen) - w, 'an image is not a derivation of the target', extra=[show_tree(t) for t in list(set(seen) - w)[:2]])
            ctx.event('onto')
    if seen:
        ctx.nontrivial((src, ref.show(x), tuple(pos.items()), how))
        ctx.sample({'program': src.split('\n'), 'how': how, 'divisor': ref.show(x), 'positions': {str(k): v for k, v in pos.items()}, 'derivations': len(seen)})
