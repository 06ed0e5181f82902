"""Shared by the transformation monitors: evaluate a program and its transform on the same random
data with the reference evaluator and compare the values of the items the user can see."""
import math
import ref, gen, conv
from ref import V, RefLimit, RefInst
from mon import Violation, Skip


def functors(rules):
    out = set()
    for h, b in rules:
        for y in [h] + list(b):
            if y.__class__ is tuple and not ref.is_builtin(y): out.add((y[0], len(y) - 1))
    return out


def restrict(chart, sigs):
    return {k: v for k, v in chart.items() if k.__class__ is tuple and (k[0], len(k) - 1) in sigs}


def evaluate(rules, sr, **kw):
    try:
        return ref.evaluate(rules, sr, **kw)
    except (ZeroDivisionError, OverflowError, TypeError) as e:
        raise RefLimit(str(e))


def bad_values(c):
    return any(isinstance(v, float) and (math.isnan(v) or (abs(v) > 1e12 and not math.isinf(v))) for v in c.values())


def program_of(live):
    return conv.from_program(live)


def meaning(ctx, before, after, p, sr, sigs, what, ndb=3, tol=1e-6, lift=None, max_iter=150, facts_of=None, slow=120, only=None, patterns=None, drop_builtin_free=False, **detail):
    """Values of the items with signature in `sigs` agree before and after, on several random databases.
    Returns the number of databases on which something was compared."""
    rng = ctx.rng
    n = 0
    for _ in range(ndb):
        facts = (facts_of or p.facts)(rng)
        if sr is not ref.Real: facts = [(h, [abs(y) if isinstance(y, (int, float)) else y for y in b]) for h, b in facts]
        if lift: facts = lift(facts)
        info = {}
        kw = {}
        try:
            a = evaluate(before + facts, sr, max_iter=max_iter, info=info)
            if drop_builtin_free and info.get('builtin_free'):
                kw = {'items_only': True}; ctx.event('db_builtin_free')
                a = evaluate(before + facts, sr, max_iter=max_iter, info=info, **kw)
        except (RefLimit, RefInst):
            ctx.event('db_skipped_before'); continue
        if bad_values(a): ctx.event('db_skipped_value'); continue
        if info['iters'] > slow: ctx.event('db_skipped_slow'); continue
        try:
            b = evaluate(after + facts, sr, max_iter=max_iter * 6 + 50, **kw)
        except RefInst:
            ctx.event('db_skipped_delayed'); continue
        except RefLimit as e:
            ctx.event('db_skipped_after'); ctx.event('after_limit_' + str(e)); continue
        aa, bb = restrict(a, sigs), restrict(b, sigs)
        if only: aa, bb = {k: v for k, v in aa.items() if only(k)}, {k: v for k, v in bb.items() if only(k)}
        if patterns is not None:            # what a user can ask for: each pattern as a query
            bad = None
            full = (aa, bb)
            for q in patterns:
                aa, bb = ref.query(full[0], q, sr), ref.query(full[1], q, sr)
                bad = bad or ref.compare(bb, aa, sr, tol)
                if bad: break
                ctx.event('queries'); ctx.event('nonempty_queries', bool(aa or bb))
            else: aa = full[0]
        else: bad = ref.compare(bb, aa, sr, tol)
        if bad: bad = [t for t in bad if not any(isinstance(v, float) and math.isnan(v) for v in t[1:])] or None      # inf - inf
        ctx.event('dbs'); ctx.event('compared_items', len(set(aa) | set(bb)))
        if aa or bb: ctx.event('nonempty_dbs')
        if bad:
            d = [(ref.show(k), f'after {x!r}', f'before {y!r}') for k, x, y in bad]
            raise Violation(f'{what}: value changed: {d[0]}', diffs=d, before=ref.show_program(before), after=ref.show_program(after),
                            data=ref.show_program(facts), values_before=ref.show_chart(aa), values_after=ref.show_chart(bb), semiring=sr.name, **detail)
        n += 1 if (aa or bb) else 0
    return n


def declared(p, rng=None, outs=None, text=False):
    "input/output declaration programs for a generated program"
    ins = [gen.sig_term(f, n) for f, n in sorted(p.edb)]
    wide = [t for t in ins if len(t) > 1 and (t[0], len(t) - 1) not in p.edb_domains]
    if rng is not None and wide and p.dom and rng.random() < .1:
        # several declarations for one relation, one for each constant: subgoals are more general than each of them
        t = rng.choice(wide); k = rng.randrange(1, len(t))
        ins.remove(t)
        ins += [t[:k] + (c,) + t[k+1:] for c in p.dom]
    ins = '\n'.join(ref.show(t) + '.' for t in ins)
    outs = '\n'.join(ref.show(gen.sig_term(f, n)) + '.' for f, n in (outs or p.outputs))
    return ins, outs


def live(p, rules=None, rng=None, with_decl=True, outs=None, semiring=None):
    rules = p.rules if rules is None else rules
    i, o = declared(p, rng=rng, outs=outs)
    q = conv.to_program(rules, inputs=i if with_decl else None, outputs=o if with_decl else None)
    if semiring and semiring != 'Float': q = q.lift_semiring(conv.SR[semiring])
    return q
