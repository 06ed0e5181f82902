"""C06: order, priorities, agenda type, batching and repeated calls do not change the result."""
import random
import ref, gen, conv
from common import *
from dyna.util.bucket_queue import BucketQueue
from arsenal.datastructures.heap import LocatorMaxHeap

RULE = ('random program + data; each case runs several schedules of the same computation (rule/subgoal/data order, random or '
        'adversarial priorities, LIFO/random/bucket agendas, data split into 1-5 incremental batches with queries and redundant '
        'calls in between, retracted data) on solver 1 or 2; oracle: reference fixpoint of the final data; distinct by '
        'program+schedule; non-trivial = derived items and at least one schedule with more than one batch or a non-default agenda')
CASES = (1500, 20000)
REQUIRED = {'schedules': 3300, "batches": 7000, "retractions": 300, "rerun_noop": 3300}
ASSUMPTIONS = ['reference evaluator']


class RandomAgenda:
    "pops an arbitrary element; same interface as the heaps"
    rng = random.Random(0)
    def __init__(self): self.d = {}
    def __setitem__(self, k, v): self.d[k] = v
    def __getitem__(self, k): return self.d[k]
    def __contains__(self, k): return k in self.d
    def __len__(self): return len(self.d)
    def popitem(self):
        k = RandomAgenda.rng.choice(list(self.d))
        return k, self.d.pop(k)


def run_case(ctx):
    rng = ctx.rng
    nong = rng.random() < .3
    p = gen.any_prog(rng, p_family=.3, builtins=rng.random() < .25, nonground=nong, maxarity=2)
    srn = pick_semiring(rng, p)
    sr = ref.SEMIRINGS[srn]
    facts = p.facts(rng)
    retract = []
    if srn != 'Float':
        p.rules = nonneg(p.rules); facts = nonneg(facts)
    elif rng.random() < .35 and facts:
        # extra facts that are later cancelled by their negation
        for _ in range(rng.randint(1, 3)):
            h, b = rng.choice(facts)
            w = rng.choice([.25, .5, 1])
            retract.append(((h, [w]), (h, [-w])))
            if len(h) > 1 and rng.random() < .4:
                h2 = h[:-1] + (rng.choice(p.dom or [0]),)
                retract.append(((h2, [w]), (h2, [-w])))
    rules = p.rules + facts
    nong = any(set(ref.variables(h)) - set(ref.variables(b)) for h, b in rules)
    want, info = reference(ctx, lift_rules(rules, srn), sr)
    if info['iters'] > 60: ctx.skip('slow convergence')
    if len(want) > 120: ctx.skip('large')
    # intermediate data must converge, too: only retract in programs that stay convergent with everything added
    if retract:
        w2, _ = reference(ctx, rules + [a for a, _ in retract], sr)
        if srn == 'Float' and any(v == float('inf') for v in [*want.values(), *w2.values()]): ctx.skip('reference: inf - inf')
    src = source(rules)
    ctx.notes.update(program=src, semiring=srn)
    special = False
    for k in range(rng.randint(2, 4)):
        rs = list(p.rules)
        rng.shuffle(rs)
        rs = [(h, rng.sample(b, len(b)) if rng.random() < .6 and not any(ref.is_builtin(y) for y in b) else b) for h, b in rs]
        ds = list(facts)
        rng.shuffle(ds)
        nb = rng.randint(1, 5)
        batches = [[] for _ in range(nb)]
        for d in ds: rng.choice(batches).append(d)
        if retract and nb > 1:
            for a, b in retract:
                i, j = sorted(rng.sample(range(nb), 2))
                batches[i].append(a); batches[j].append(b)
                ctx.event('retractions')
        live = build(rng, rs, conv, srn)
        ag = rng.choice(['heap', 'bucket', 'random', 'lifo', 'prio', 'rprio'])
        kw = {}
        if ag == 'bucket':
            r2 = random.Random(rng.random())
            kw = dict(AgendaType=BucketQueue, priority=lambda x: r2.randint(0, 5))
        elif ag == 'random':
            RandomAgenda.rng = random.Random(rng.random())
            kw = dict(AgendaType=RandomAgenda)
        elif ag == 'lifo':
            c = [0]
            def lifo(x, c=c):
                c[0] += 1
                return c[0]
            kw = dict(priority=lifo)
        elif ag == 'prio':
            kw = dict(priority=lambda x: hash(str(x)) % 7)
        elif ag == 'rprio':
            r3 = random.Random(rng.random())
            kw = dict(priority=lambda x: r3.random())
        which = 2 if nong or rng.random() < .3 else 1
        counter = [0]
        base = kw.pop('AgendaType', LocatorMaxHeap)
        kw['AgendaType'] = counting_heap(60000 + 300 * info['joins'], counter, base)
        sched = f'solver{which} agenda={ag} batches={nb}'
        try:
            s = live.solver2(**kw) if which == 2 else live.solver(**kw)
            for i, b in enumerate(batches):
                s(build(rng, b, conv, srn))
                ctx.event('batches')
                if rng.random() < .3:
                    s()
                if rng.random() < .3 and want:
                    kq = rng.choice(list(want))
                    s.user_query(conv.to_term(pattern(rng, p.dom, kq), {}))
            got = conv.solver_chart(s, sr)
            pops = counter[0]
            before = {k2: conv.raw(v) for k2, v in s.chart.items()}
            s()
            after = {k2: conv.raw(v) for k2, v in s.chart.items()}
            ctx.check(len(before) == len(after) and all(sr.dist(after.get(k2, sr.zero), v) == 0 for k2, v in before.items()), f'running again without new data changed the chart ({sched}, {srn})', program=src)
            ctx.event('rerun_noop')
        except PopLimit as e:
            ctx.fail(f'{e} ({sched})', program=src, semiring=srn)
        ctx.event('schedules'); ctx.event('agenda_' + ag); ctx.event('agenda_pops', counter[0])
        got = {k2: v for k2, v in got.items() if not (k2.__class__ is tuple and str(k2[0]).startswith('$gen'))}
        expect_equal(ctx, got, want, sr, f'schedule {sched} ({srn})', program=src,
                     batches=[source(b) for b in batches], tol=1e-4 if retract else 1e-5)
        special = special or nb > 1 or ag != 'heap'
        if len(want) > len(facts) and special:
            ctx.nontrivial((src, srn, sched))
    ctx.sample({'program': src.split('\n'), 'semiring': srn, 'last_schedule': sched})
