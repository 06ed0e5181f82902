"""C22: pruning never changes an output."""
import ref, gen, conv, xform
from common import *
from dyna import Program

RULE = ('random programs with dead, unproductive and unreachable rules, overlapping and partially bound heads and subgoals, structured terms, nonground rules, '
        'built-ins, variables as factors; input and output declarations that are full patterns, patterns with constants / repeated variables / structure, or several '
        'overlapping patterns, also for functors that rules define; one or two pruning steps of every level (very fast, fast, bottom-up, dead-only, specializing, '
        'several truncation depths); evaluated by the reference evaluator on random data that the input declarations allow; only items that match an output '
        'declaration are compared. Distinct by program, declarations and steps')
CASES = (1850, 30000)
REQUIRED = {'dbs': 2500, 'nonempty_dbs': 1900, 'nonempty_queries': 2500, 'changed': 600, 'prune': 500, 'dead': 180, 'bottom_up': 180, 'fast': 180, 'very_fast': 180, 'patterned': 900, 'given_and_derived': 250}
ASSUMPTIONS = ['reference evaluator', 'data respect the input declarations']
WALL = (60, 700)
CASE_LIMIT = (12, 30)


def junk(rng, p):
    "rules that can never matter, or only under some binding"
    X, Y = V('X'), V('Y')
    sigs = sorted({(h[0], len(h) - 1) for h, b in p.rules})
    items = [y for h, b in p.rules for y in [h] + b if y.__class__ is tuple and not ref.is_builtin(y)]
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        u = rng.random()
        f = rng.choice(sigs); t = gen.sig_term(*f)
        if u < .2: out.append((t, [('never', V('N'))] + [rng.choice(items)]))
        elif u < .35: out.append((('loop', X), [('loop', X)]))
        elif u < .5: out.append((('loop', X), [('loop', Y), rng.choice(items)]))
        elif u < .65: out.append((('sink', X), [rng.choice(items)]))
        elif u < .8:
            h = list(t)
            for i in range(1, len(h)):
                if rng.random() < .6: h[i] = rng.choice(p.dom) if p.dom else 0
            out.append((tuple(h), [rng.choice(items)]))
        else:
            y = list(rng.choice(items))
            for i in range(1, len(y)):
                if rng.random() < .6: y[i] = rng.choice(list(p.dom or [0]) + [('zz',)])
            out.append((t, [tuple(y)]))
    out = [(h, b) for h, b in out if set(ref.variables(h)) <= set(ref.variables(b))]
    rules = p.rules + out
    rng.shuffle(rules)
    p.rules = rules
    return bool(out)


def patterns(rng, p, sig, items, k=.5):
    "one or two patterns for a functor"
    f, n = sig
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        t = list(gen.sig_term(f, n))
        if rng.random() < k:
            for i in range(1, len(t)):
                u = rng.random()
                if u < .3 and p.dom: t[i] = rng.choice(p.dom)
                elif u < .4 and n > 1: t[i] = t[1]
                elif u < .5: t[i] = ('s', t[i])
        out.append(tuple(t))
    return out


def matches(pats, item):
    return any(ref.unify(ref.rename(q), item, {}) is not None for q in pats)


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < .25: p = rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_list, gen.fam_evenodd, gen.fam_chain])(rng)
    else:
        p = gen.datalog(rng, nonground=rng.random() < .25, functions=rng.random() < .35, builtins=rng.random() < .2, maxarity=2, n_idb=rng.randint(1, 3))
        if rng.random() < .12: gen.add_varfactor(rng, p)
    if rng.random() < .7 and junk(rng, p): ctx.event('junk')
    if len(p.rules) > 9: ctx.skip('large')
    srn = 'Float' if 'varfactor' in p.tags else rng.choice(['Float', 'Float', 'Boolean', 'MaxTimes'])
    sr = ref.SEMIRINGS[srn]
    if srn != 'Float': p.rules = nonneg(p.rules)
    before = lift_rules(p.rules, srn)
    src = source(p.rules)
    items = [y for h, b in p.rules for y in [h] + b if y.__class__ is tuple and not ref.is_builtin(y)]
    structured = 'dom' if p.edb_domains else None
    ins = [q for s in sorted(p.edb) for q in patterns(rng, p, s, items, 0 if p.edb_domains else .35)]
    both = rng.random() < .35
    if not p.edb_domains and both:                                      # items that are both given and derived
        for s in sorted({(h[0], len(h) - 1) for h, b in p.rules}):
            if rng.random() < .5: ins.append(gen.sig_term(*s)); ctx.event('given_and_derived')
    ins = [q for q in ins if rng.random() < .95] or ins
    outs = [q for s in p.outputs for q in patterns(rng, p, s, items, .4)]
    if any(q != gen.sig_term(q[0], len(q) - 1) for q in ins + outs): ctx.event('patterned')
    it, ot = '\n'.join(ref.show(q) + '.' for q in ins), '\n'.join(ref.show(q) + '.' for q in outs)
    P = conv.to_program(p.rules, inputs=it, outputs=ot)
    if srn != 'Float': P = P.lift_semiring(conv.SR[srn])
    steps = []
    ctx.notes.update(program=src, inputs=it, outputs=ot, steps=steps, semiring=srn)

    def facts_of(rng):
        facts = [f for f in p.facts(rng) if matches(ins, f[0])]
        for q in ins:                                        # data for the patterns themselves
            if not p.edb_domains and rng.random() < .6:
                pool = list(p.dom) + [('s', d) for d in p.dom[:2]] + [('new',)]
                if 'varfactor' in p.tags: pool = [d for d in pool if isinstance(d, int)]
                for _ in range(2):
                    t = ref.apply({v: rng.choice(pool) for v in ref.variables(q)}, q)
                    facts.append((t, [p.weights(rng)]))
        return facts

    lift = lambda f: lift_rules(f, srn)
    sigs = {(q[0], len(q) - 1) for q in outs}
    Q = P
    for _ in range(rng.choice([1, 1, 2])):
        how = rng.choice(['prune', 'prune', 'prune_depth', 'dead', 'bottom_up', 'fast', 'very_fast'] + ['fast', 'very_fast'] * both)
        n = len(Q)
        if how == 'prune': N = Q.prune()
        elif how == 'prune_depth': N = Q.prune(max_depth=rng.choice([2, 3, 4])); how = 'prune'
        elif how == 'dead': N = Q.prune(specialize=False, **rng.choice([{}, {'max_depth': 2}]))
        elif how == 'bottom_up': N = Q.prune_bottom_up(**rng.choice([{}, {'specialize': False}, {'max_depth': 3}]))
        elif how == 'fast': N = Q.prune_fast()
        else: N = Q.prune_very_fast()
        steps.append(how); ctx.event(how)
        after = conv.from_program(N)
        if len(after) > 60: ctx.event('grown'); break
        ctx.check(N.inputs is not None and N.outputs is not None, f'{how} lost the declarations')
        if not N.same(Q): ctx.event('changed')
        if how in ('fast', 'very_fast'):
            # these levels keep rules as they are, and drop at least what is dead by name
            have = conv.from_program(Q)
            ctx.check(len(after) <= len(have), f'{how} added rules')
        k = xform.meaning(ctx, before, after, p, sr, sigs, f'{steps}', ndb=2, lift=lift, max_iter=60, slow=50, patterns=[ref.rename(q) for q in outs], facts_of=facts_of, outputs=ot, inputs=it)
        if k:
            ctx.nontrivial((src, it, ot, tuple(steps)))
            ctx.sample({'program': src.split('\n'), 'inputs': it, 'outputs': ot, 'steps': list(steps), 'after': ref.show_program(after).split('\n')[:10]})
        Q = N
