"""Workload shared by C18 (accepted folds) and C33 (safety measure): random define / unfold / fold sequences."""
import ref, gen, conv
from ref import V
from dyna import Program


def prog(rng):
    "programs with something to fold"
    u = rng.random()
    X, Y, Z, W = [V(n) for n in 'XYZW']
    if u < .2: return gen.fam_chain(rng)
    if u < .3: return rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm])(rng)
    if u < .65:
        p = gen.datalog(rng, nonground=rng.random() < .2, builtins=rng.random() < .2, functions=rng.random() < .15, maxarity=2, n_idb=rng.randint(1, 3))
        return p
    # recursive shapes on which folding by itself or by a cousin is tempting
    k = rng.choice([.1, .2, .3])
    shapes = [
        [(('p', X), [('u0', X)]), (('q', X), [('u0', X)]), (('p', X), [('p', X), k]), (('g', X), [('p', X), ('q', X)])],
        [(('p', X, Y), [('u0', X, Z), ('u0', Z, Y)]), (('q', X, Y), [('u0', X, Z), ('u0', Z, Y)]), (('g', X), [('u0', X, Z), ('u0', Z, Y), ('u1', Y)])],
        [(('p', X), [('u0', X), ('u1', X)]), (('p', X), [('u0', X), ('p', X), k]), (('q', X), [('u0', X), ('p', X)])],
        [(('p', X), [('u1', X)]), (('p', Y), [('p', X), ('u0', X, Y), k]), (('q', Y), [('p', X), ('u0', X, Y)]), (('q', Y), [('u1', Y)])],
        [(('p', X, Z), [('u0', X, Z)]), (('p', X, Z), [('u0', X, Y), ('p', Y, Z), k]), (('g', Z), [('u1', X), ('u0', X, Y), ('p', Y, Z)]), (('g', Z), [('u1', X), ('u0', X, Z)])],
        [(('a',), [('b',)]), (('b',), [('c',), k]), (('b',), [('u0',)]), (('c',), [('b',)]), (('d',), [('c',), k]), (('d',), [('u0',)])],
        [(('p', X), [('u1', X)]), (('q', X), [('u1', X)]), (('p', X), [('q', X), k]), (('q', X), [('p', X), k])],
        [(('p', X), [('u1', X), ('u1', X)]), (('p', X), [('u1', X), ('q', X)]), (('q', X), [('u1', X)]), (('g',), [('u1', X), ('u1', Y)]), (('h',), [('u1', X)])],
        [(('e', X), [('p', X, Y), ('u1', Y)]), (('f', X), [('p', X, Y), ('u1', Y), ('u1', X)]), (('p', X, Y), [('u0', X, Y)]), (('p', X, Y), [('u0', X, Z), ('p', Z, Y), k])],
    ]
    rules = rng.choice(shapes)
    if rng.random() < .3: rules = rules + [rng.choice(rules)]
    if rng.random() < .3: rules = rules + gen.datalog(rng, recursive=False, maxarity=2).rules[:1]
    heads = {(h[0], len(h) - 1) for h, b in rules}
    edb = {(y[0], len(y) - 1) for h, b in rules for y in b if y.__class__ is tuple and not ref.is_builtin(y)} - heads
    rules = list(rules); rng.shuffle(rules)
    return gen.Prog(rules, edb, [sorted(heads)[-1]], gen.domain(rng), gen.w_small, ('foldshape',))


def definition(rng, rules, name):
    "a new definition whose body occurs (up to renaming) in the program; possibly several rules"
    cands = [r for r in rules if sum(1 for y in r[1] if y.__class__ is tuple) >= 1]
    if not cands: return None
    h, b = rng.choice(cands)
    idx = [i for i, y in enumerate(b) if y.__class__ is tuple]
    js = sorted(rng.sample(idx, rng.randint(1, len(idx))))
    body = [b[j] for j in js]
    vs = list(ref.variables(body))
    rest = list(ref.variables([y for i, y in enumerate(b) if i not in js] + [h]))
    need = [v for v in vs if v in rest]
    u = rng.random()
    if u < .62: hv = need
    elif u < .74: hv = vs
    elif u < .87 and need:      # one too few: such a fold must be refused
        drop = rng.choice(need)
        hv = [v for v in need if v is not drop]
    else: hv = [v for v in vs if rng.random() < .5]
    hv = list(hv)
    if rng.random() < .2: rng.shuffle(hv)
    out = [((name,) + tuple(hv), body)]
    if rng.random() < .25 and len(cands) > 1:
        # a second rule with the same head, from a rule that differs in the same place
        h2, b2 = rng.choice(cands)
        idx2 = [i for i, y in enumerate(b2) if y.__class__ is tuple]
        js2 = rng.sample(idx2, min(len(js), len(idx2)))
        body2 = [b2[j] for j in js2]
        vs2 = list(ref.variables(body2))
        if len(vs2) >= len(hv): out.append(((name,) + tuple(vs2[:len(hv)]), body2))
    if rng.random() < .1: out[0] = (out[0][0] + (V('Unused'),), out[0][1])
    return [(ref.rename(h, m := {}), [ref.rename(y, m) for y in b]) for h, b in out]


def distribute(rng, p):
    "replace an intermediate item by its rules (by hand), so that a multi-rule fold can get it back"
    heads = {}
    for i, (h, b) in enumerate(p.rules): heads.setdefault((h[0], len(h)), []).append(i)
    opts = [(i, j) for i, (h, b) in enumerate(p.rules) for j, y in enumerate(b)
            if y.__class__ is tuple and (y[0], len(y)) in heads and len(heads[y[0], len(y)]) <= 3 and i not in heads[y[0], len(y)]]
    if not opts: return
    i, j = rng.choice(opts)
    h, b = p.rules[i]
    new = []
    for k in heads[b[j][0], len(b[j])]:
        m = {}
        h2, b2 = ref.rename(p.rules[k][0], m), [ref.rename(y, m) for y in p.rules[k][1]]
        s = ref.unify(b[j], h2, {})
        if s is None: continue
        nb = [ref.resolve(y, s) for y in b[:j]] + [ref.resolve(y, s) for y in b2] + [ref.resolve(y, s) for y in b[j+1:]]
        if set(ref.variables(ref.resolve(h2, s))) - set(ref.variables(nb)) - set(ref.variables(ref.resolve(h, s))): return
        new.append((ref.resolve(h, s), nb))
    if not new: return
    p.rules = p.rules[:i] + p.rules[i+1:] + new


def plain(q):
    return [(h, [conv.raw(y) for y in b]) for h, b in conv.from_program(q)]
