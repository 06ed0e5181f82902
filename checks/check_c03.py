"""C03: goal-directed SCC evaluation (with and without magic) agrees on every output."""
import ref, gen, conv
from common import *
from dyna.exceptions import InstFault

RULE = ('random programs with input/output declarations (outputs free, partially bound or ground patterns; recursive, '
        'mutually recursive, non-range-restricted) x semiring x {magic, no magic} x {auto, solver 2}; non-trivial = some '
        'output has a value and the program has derived items; distinct by program+data+mode')
CASES = (900, 14000)
REQUIRED = {'solved': 600, 'nonempty_outputs': 350}
ASSUMPTIONS = ['reference evaluator']


def out_pattern(rng, sig, want, dom):
    f, n = sig
    items = [k for k in want if k.__class__ is tuple and (k[0], len(k) - 1) == sig]
    u = rng.random()
    args = [V(f'X{i}') for i in range(n)]
    if n and u < .4:
        base = rng.choice(items)[1:] if items and rng.random() < .8 else tuple(rng.choice(dom or [0]) for _ in range(n))
        for i in range(n):
            if rng.random() < .5: args[i] = base[i]
    elif n >= 2 and u < .5:
        args[1] = args[0]
    m = {}
    return ref.rename((f,) + tuple(args), m)


def run_case(ctx):
    rng = ctx.rng
    magic = rng.random() < .6
    nong = rng.random() < .35
    if rng.random() < .25:
        fams = [gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_chain] + ([] if magic else [gen.fam_list, gen.fam_evenodd, gen.fam_count])
        p = rng.choice(fams)(rng)
    else:
        p = gen.datalog(rng, nonground=nong, builtins=rng.random() < .2, functions=False, maxarity=2)
    srn = pick_semiring(rng, p)
    sr = ref.SEMIRINGS[srn]
    facts = p.facts(rng)
    if srn != 'Float':
        p.rules = nonneg(p.rules); facts = nonneg(facts)
    rules = p.rules + facts
    want, info = reference(ctx, lift_rules(rules, srn), sr)
    if info['iters'] > 60: ctx.skip('slow convergence')
    if len(want) > 150: ctx.skip('large')
    src = source(rules)
    outs = [out_pattern(rng, s, want, p.dom) for s in p.outputs]
    ins = [gen.sig_term(f, n) for f, n in sorted(p.edb)]
    ctx.notes.update(program=src, outputs=[ref.show(o) for o in outs], semiring=srn, magic=magic)
    live = build(rng, p.rules, conv, srn, inputs='\n'.join(ref.show(i) + '.' for i in ins), outputs='\n'.join(ref.show(o) + '.' for o in outs))
    data = build(rng, facts, conv, srn)
    nonground = any(not ref.ground(k) for k in want) or any(set(ref.variables(h)) - set(ref.variables(b)) for h, b in rules)
    solver = 2 if rng.random() < .4 else None
    try:
        s = live.scc_solver(magic=magic, data=data, solver=solver)
    except InstFault:
        # magic's demand order may leave a builtin without its inputs; that is an explicit refusal
        if not (magic and 'cmp' in p.tags) and not nonground: raise
        ctx.skip('InstFault')
    ctx.event('solved'); ctx.event('magic' if magic else 'plain')
    ctx.check(not s.interrupted and not s.pass1_interrupted, 'interrupted without a budget')
    some = False
    for o in outs:
        w = ref.query(want, o, sr)
        got = conv.chart_of(s.user_query(conv.to_term(o, {})), sr)
        expect_equal(ctx, got, w, sr, f'output {ref.show(o)} ({srn}, magic={magic}, solver={solver})', program=src)
        some = some or bool(w)
        if w:
            g = rng.choice(list(w))
            q = pattern(rng, p.dom, g)
            q2 = ref.unify(ref.rename(o), q, {})
            if q2 is not None:
                q = ref.resolve(q, q2)
                got = conv.chart_of(s.user_query(conv.to_term(q, {})), sr)
                expect_equal(ctx, got, ref.query(want, q, sr), sr, f'query {ref.show(q)} ({srn}, magic={magic})', program=src)
        # no output instance is overstated in the chart either
        ch = {k: v for k, v in conv.solver_chart(s, sr).items() if k.__class__ is tuple and k[0] == o[0] and len(k) == len(o)}
        expect_equal(ctx, ref.query(ch, o, sr), w, sr, f'chart restricted to output {ref.show(o)}', program=src)
    ctx.event('nonempty_outputs', int(some))
    if some and len(want) > len(facts):
        ctx.nontrivial((src, srn, magic, solver, [ref.show(o) for o in outs]))
        if nonground: ctx.event('nonground')
        for t in p.tags: ctx.event('tag_' + t)
        ctx.sample({'program': src.split('\n'), 'outputs': [ref.show(o) for o in outs], 'semiring': srn, 'magic': magic})
