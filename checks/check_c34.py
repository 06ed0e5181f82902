"""C34: the bucket queue is a faithful priority queue."""
from common import *
from dyna.util.bucket_queue import BucketQueue

RULE = ('random histories of insert / re-prioritize (up, down, same) / delete / pop / iterate (also modifying while iterating) / '
        'lookup over small keys and priorities (negative, sparse, re-insertion after draining); every result compared with a dictionary '
        'model; non-trivial = at least one pop after a decrease and a re-insertion; distinct by history')
CASES = (18000, 150000)
REQUIRED = {'op_pop': 20000, 'op_set': 40000, 'op_del': 3000, 'op_iter': 1000, 'decreases': 5000, 'refilled': 3000}


def run_case(ctx):
    rng = ctx.rng
    q, m = BucketQueue(), {}
    keys = rng.choice([list(range(4)), ['a', ('b', 1), 3, None, frozenset([1])], list(range(30))])
    prios = rng.choice([list(range(5)), [0, 1, 7, 40], [-5, -2, 0, 3], list(range(-20, 20)), [3], [10**6, 10**6 + 3, -2]])
    if prios[0] == 10**6: prios = [10**4, 10**4 + 3, -2]
    hist = []
    last = None; drained = False; dec = False; popdec = False

    def check_state():
        ctx.check(len(q) == len(m), f'len {len(q)} but {len(m)} items are queued', history=hist)
        for k in keys:
            ctx.check((k in q) == (k in m), f'membership of {k!r} is {k in q}', history=hist)
            if k in m:
                ctx.check(q[k] == m[k], f'priority of {k!r} is {q[k]}, should be {m[k]}', history=hist)

    def put(k, p):
        nonlocal dec, drained
        hist.append(('set', k, p))
        if k in m and p < m[k]: ctx.event('decreases'); dec = True
        if drained: ctx.event('refilled'); drained = False
        q[k] = p; m[k] = p
        ctx.event('op_set')

    def popped(x, p):
        nonlocal popdec, drained
        ctx.event('op_pop')
        ctx.check(x in m, f'popped {x!r}, which is not queued', history=hist)
        ctx.check(m[x] == min(m.values()), f'popped {x!r} of priority {m[x]} although the minimum is {min(m.values())}', history=hist)
        if p is not None:
            ctx.check(p == m[x], f'pop reports priority {p} for {x!r}, which has {m[x]}', history=hist)
        del m[x]
        if dec: popdec = True
        if not m: drained = True

    for _ in range(rng.choice([5, 20, 60])):
        u = rng.random()
        if u < .5:
            k = rng.choice(keys)
            put(k, rng.choice(prios))
        elif u < .85:
            hist.append(('pop',))
            r = q.popitem()
            if not m:
                ctx.check(r is None, f'pop of the empty queue returned {r!r}', history=hist); ctx.event('pop_empty')
            else:
                ctx.check(r is not None, 'pop of a non-empty queue returned nothing', history=hist)
                popped(*r)
        elif u < .92 and m:
            k = rng.choice(list(m))
            hist.append(('del', k))
            del q[k]; del m[k]; ctx.event('op_del')
            if not m: drained = True
        elif u < .94:
            k = rng.choice(keys)
            if k not in m:
                hist.append(('del-missing', k))
                try:
                    del q[k]
                except KeyError:
                    ctx.event('op_del_missing')
                else:
                    ctx.fail(f'deleting the missing item {k!r} succeeded', history=hist)
        else:
            kind = rng.choice(['iter', 'items'])
            hist.append((kind,))
            ctx.event('op_iter')
            n, stop = 0, rng.choice([2, 1000])
            for o in (q if kind == 'iter' else q.items()):
                x, p = o if kind == 'items' else (o, None)
                popped(x, p)
                n += 1
                if rng.random() < .3 and n < 50: put(rng.choice(keys), rng.choice(prios))
                if n >= stop: break
            else:
                ctx.check(not m, f'iteration stopped although {len(m)} items are queued', history=hist)
                drained = True
        check_state()
    while m:
        r = q.popitem()
        ctx.check(r is not None, f'queue is exhausted although {len(m)} items are queued', history=hist)
        popped(*r)
    ctx.check(q.popitem() is None and len(q) == 0, 'queue not empty after draining', history=hist)
    if popdec: ctx.nontrivial(hist)
    ctx.sample(hist[:12])
