"""C31: derivation enumeration is complete, duplicate-free and value-correct."""
from collections import Counter
import ref, gen, conv, xform
from common import *
from dyna import Program, Derivation
from dyna import derivations as dv

RULE = ('random range-restricted programs with their data as rules (recursive, self-joins, duplicate rules and facts, several derivations per item, constants and bodyless facts, '
        'comparisons and arithmetic, variables as factors, structured terms; several semirings); derivations up to a height, or all of them, by naive, semi-naive, agenda and '
        'top-down enumeration, for queries that are ground, patterns or everything; compared as multisets with an independent enumeration; every derivation checked node by node; values '
        'multiplied out and summed; subtree tests, equality and sorting of derivations against the enumeration. Distinct by program, strategy and height')
CASES = (1700, 25000)
REQUIRED = {'enumerations': 1500, 'derivations': 8000, 'naive': 500, 'seminaive': 250, 'agenda': 100, 'sld': 150, 'summed_items': 1500, 'duplicates': 100, 'subtrees': 300}
ASSUMPTIONS = ['reference evaluator']
WALL = (60, 700)
LIMIT = 300


class Many(Exception):
    pass


def enumerate_ref(rules, T):
    "all derivations of height <= T: {head: [tree]}, tree = (rule index, head, children)"
    chart = {}
    for t in range(T if T is not None else 30):
        new, n = {}, 0
        entries = {h: 1 for h in chart}
        C = ref.Chart(entries)
        for i, (h, b) in enumerate(rules):
            for s in joins(list(b), C):
                body = [ref.resolve(y, s) for y in b]
                head = ref.resolve(h, s)
                kids = [()]
                for y in body:
                    if y.__class__ is not tuple: opts = [('const', float(y) if isinstance(y, (int, float)) and not isinstance(y, bool) else y)]
                    elif ref.is_builtin(y): opts = [('builtin', y)]
                    else: opts = chart.get(y, [])
                    if len(kids) * len(opts) > LIMIT: raise Many()
                    kids = [k + (o,) for k in kids for o in opts]
                new.setdefault(head, []).extend((i, head, k) for k in kids)
                n += len(kids)
                if n > LIMIT: raise Many()
        if sum(map(len, new.values())) == sum(map(len, chart.values())):
            return new, True
        chart = new
    return chart, False


def joins(body, C):
    seen = []
    for s, _ in ref.join(body, C, ref.BoolR, {}, True, [0, 20000]): yield s


def const(y):
    y = conv.raw(y)
    return float(y) if isinstance(y, (int, float)) and not isinstance(y, bool) else y


def tree_of(ctx, d, P, rules, top=True):
    "convert a derivation, checking that every node is a correct use of its rule"
    if not isinstance(d, Derivation): return ('const', const(d))
    m = {}
    head = conv.from_term(d.head, m)
    if d.i is None:
        ctx.check(ref.is_builtin(head), f'a node without a rule that is not a built-in: {d}')
        return ('builtin', head)
    ctx.check(d.p is P, 'derivation belongs to another program')
    kids = tuple(tree_of(ctx, y, P, rules, False) for y in d.body)
    h, b = rules[d.i]
    ctx.check(len(b) == len(kids), f'node has {len(kids)} children, rule {d.i} has {len(b)} subgoals', derivation=str(d))
    inst = ('inst', head) + tuple(k[1] for k in kids)
    pat = ('inst', h) + tuple(float(y) if isinstance(y, (int, float)) and not isinstance(y, bool) else y for y in b)
    ctx.check(ref.match(ref.rename(pat), norm(inst)) is not None or ref.unify(norm(ref.rename(pat)), norm(inst), {}) is not None, f'node is not an instance of rule {d.i}', derivation=str(d), rule=ref.show_rule((h, b)))
    ctx.event('nodes')
    return (d.i, head, kids)


def norm(x):
    if x.__class__ is tuple: return tuple(norm(y) for y in x)
    if isinstance(x, (int, float)) and not isinstance(x, bool): return float(x)
    return x


def size(t): return 0 if t[0] in ('const', 'builtin') else 1 + sum(size(k) for k in t[2])
def height(t): return 0 if t[0] in ('const', 'builtin') else 1 + max([height(k) for k in t[2]], default=0)


def dim(t):
    if t[0] in ('const', 'builtin'): return 0
    ds = sorted([dim(k) for k in t[2]], reverse=True)
    if not ds: return 0
    return ds[0] + (len(ds) > 1 and ds[0] == ds[1])


def leaves(t):
    if t[0] == 'const': return [t[1]]
    if t[0] == 'builtin': return []
    return [x for k in t[2] for x in leaves(k)]


def run_case(ctx):
    rng = ctx.rng
    u = rng.random()
    if u < .2: p = rng.choice([gen.fam_path, gen.fam_cky, gen.fam_hmm, gen.fam_chain, gen.fam_evenodd, gen.fam_list, gen.fam_count])(rng)
    else:
        p = gen.datalog(rng, functions=rng.random() < .25, builtins=rng.random() < .25, maxarity=2, n_idb=rng.randint(1, 3), recursive=rng.random() < .45)
        if rng.random() < .12: gen.add_varfactor(rng, p)
    srn = 'Float' if 'varfactor' in p.tags else rng.choice(['Float', 'Float', 'Float', 'Boolean', 'MaxTimes', 'MinPlus'])
    sr = ref.SEMIRINGS[srn]
    facts = p.facts(rng)
    rng.shuffle(facts)
    facts = facts[:rng.choice([3, 5, 8])] if not p.edb_domains else facts
    if rng.random() < .3: facts = [(h, b if rng.random() < .5 else []) for h, b in facts]
    if rng.random() < .3 and facts: facts.append(rng.choice(facts))           # duplicate facts
    rules = p.rules + facts
    if rng.random() < .2: rules.append(rng.choice(p.rules))
    if rng.random() < .5: rng.shuffle(rules)
    if srn != 'Float': rules = nonneg(rules)
    if any(not set(ref.variables(h)) <= set(ref.variables(b)) for h, b in rules): ctx.skip('not range-restricted')
    rules_sr = lift_rules(rules, srn)
    src = source(rules)
    P = build(rng, rules, conv, srn)
    builtins = any(y.__class__ is tuple and ref.is_builtin(y) for h, b in rules for y in b)
    vf = 'varfactor' in p.tags
    ctx.notes.update(program=src, semiring=srn)
    T = rng.choice([1, 2, 3, 4, 6, None, None])
    try: want, finite = enumerate_ref(rules_sr, T)
    except (RefLimit, RefInst, Many, TypeError, ZeroDivisionError): ctx.skip('too many derivations')
    if T is None and not finite: ctx.skip('infinitely many derivations')
    n = sum(map(len, want.values()))
    if not n: ctx.skip('no derivations')
    if sum(size(t) for ts in want.values() for t in ts) > 2500: ctx.skip('too many derivations')
    dup = Counter((h, tuple(b)) for h, b in rules)
    if max(dup.values()) > 1: ctx.event('duplicates')
    hows = ['naive']
    if not builtins:
        try:
            if not finite: enumerate_ref(rules_sr, T + 1)       # semi-naive prepares one level more
            hows += ['seminaive']
        except (RefLimit, Many): pass
    if not builtins and finite: hows += ['agenda']
    rec = gen.is_recursive(rules)
    if finite and not rec and not vf: hows += ['sld']
    items = [h for h in want]
    for how in rng.sample(hows, min(2, len(hows))):
        q = V('X')
        if rng.random() < .55:
            q = rng.choice(items)
            if rng.random() < .6: q = ref.canon(pattern(rng, p.dom, q)) if len(q) > 1 else q
        qt = conv.to_term(q, {}) if rng.random() < .5 else ref.show(q)
        ctx.notes.update(strategy=how, T=T, query=ref.show(q))
        full = T is None or finite
        if how == 'naive': D = list(P.derivations_naive(None if finite and rng.random() < .3 else T, qt))
        elif how == 'seminaive': D = list(P.derivations_seminaive(None if finite and rng.random() < .3 else T, qt))
        elif how == 'agenda': D = list(P.derivations_agenda()); q = V('X')
        else:
            if q.__class__ is V: q = rng.choice(items); qt = conv.to_term(q, {})
            from dyna.term import fresh
            D = [fresh(d) for d in P.sld(qt)]
        if finite and how in ('agenda', 'sld'): pass
        have = Counter()
        obj = {}
        for d in D:
            t = tree_of(ctx, d, P, rules_sr)
            have[t] += 1
            obj[t] = d
        exp = Counter(norm_tree(t) for h, ts in want.items() if ref.unify(ref.rename(q), h, {}) is not None for t in ts)
        have = Counter({norm_tree(t): 0 for t in have}) + Counter([norm_tree(t) for t, k in have.items() for _ in range(k)])
        extra, missing = have - exp, exp - have
        ctx.event('enumerations'); ctx.event(how); ctx.event('derivations', sum(have.values()))
        if extra or missing:
            ctx.fail(f'{how} (height {T}) of {ref.show(q)}: {sum(missing.values())} derivations missing, {sum(extra.values())} spurious or repeated',
                     missing=[show_tree(t) for t in list(missing)[:3]], extra=[show_tree(t) for t in list(extra)[:3]], program=src, query=ref.show(q))
        for t, d in obj.items():
            ctx.check(d.size() == size(t), f'size of a derivation is {d.size()}, not {size(t)}', derivation=str(d))
            ctx.check(d.height() == height(t), f'height of a derivation is {d.height()}, not {height(t)}', derivation=str(d))
            ctx.check(d.dimension() == dim(t), f'dimension of a derivation is {d.dimension()}, not {dim(t)}', derivation=str(d))
            for k in d.body: ctx.check(d.is_subtree(k), 'a child is not a subtree', derivation=str(d))
        # subtrees, order
        ts = list(obj)
        for _ in range(min(12, len(ts))):
            a, b = rng.choice(ts), rng.choice(ts)
            if rng.random() < .4: b = rng.choice([x for x in ts if height(x) <= height(a)])
            inner = strip(b) in set(subtrees(strip(a)))
            ctx.event('subtrees', inner and a != b)
            ctx.check(obj[a].is_subtree(obj[b]) == inner, f'is_subtree is {not inner}', derivation=str(obj[a]), other=str(obj[b]))
            ctx.check((obj[a] == obj[b]) == (strip(a) == strip(b)), 'equality of derivations', derivation=str(obj[a]), other=str(obj[b]))
        S = dv.Derivations(D).sort()
        ctx.check(sorted(map(id, S)) == sorted(map(id, D)) and [d.height() for d in S] == sorted(d.height() for d in D), 'derivations are not sorted by height')
        # values
        if finite:
            total = {}
            for d in D:
                v = sr.one
                vals = d.value()
                for y in (vals if isinstance(vals, tuple) else (vals,)): v = sr.times(v, conv.raw(y))
                k = conv.from_term(d.head, {})
                total[k] = sr.plus(total.get(k, sr.zero), v)
            ev = ref.evaluate(rules_sr, sr)
            w = {k: v for k, v in ev.items() if ref.unify(ref.rename(q), k, {}) is not None}
            total = {k: v for k, v in total.items() if sr.dist(v, sr.zero) != 0}
            expect_equal(ctx, total, w, sr, f'{how}: sum of the derivations of {ref.show(q)}', program=src)
            ctx.event('summed_items', len(w))
        ctx.nontrivial((src, how, T, ref.show(q)))
        ctx.sample({'program': src.split('\n'), 'strategy': how, 'height': T, 'derivations': sum(have.values())})


def strip(t):
    "without rule indices"
    if t[0] == 'const': return ('const', t[1])
    if t[0] == 'builtin': return ('builtin', norm(t[1]))
    return ('node', norm(t[1]), tuple(strip(k) for k in t[2]))


def subtrees(t):
    yield t
    if t[0] == 'node':
        for k in t[2]: yield from subtrees(k)


def norm_tree(t):
    if t[0] == 'const': return ('const', t[1])
    if t[0] == 'builtin': return ('builtin', norm(t[1]))
    return (t[0], norm(t[1]), tuple(norm_tree(k) for k in t[2]))


def show_tree(t):
    if t[0] in ('const', 'builtin'): return str(t[1])
    return f'{ref.show(t[1])}@{t[0]}[' + ', '.join(show_tree(k) for k in t[2]) + ']'
