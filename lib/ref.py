"""Independent reference model of the language, used as the oracle by every
behavioural monitor.

Nothing in here imports the code under test: terms are plain Python tuples
`(functor, arg, ...)`, variables are `V` objects, constants are Python values.
Programs are lists of `(head, body)` pairs.  The evaluator is a naive
(recompute everything from scratch every round) least-fixpoint iteration over
charts that map canonical -- possibly non-ground -- items to values; the value
of a ground atom is the sum of the entries that cover it.
"""

import math
import itertools
import time


class V:
    __slots__ = ('name',)
    n = 0

    def __init__(self, name=None):
        if name is None:
            V.n += 1
            name = f'_{V.n}'
        self.name = name

    def __repr__(self):
        return f'?{self.name}'


class RefLimit(Exception):
    "The reference evaluator ran out of its budget: the case is discarded."


class RefInst(Exception):
    "A builtin was not ready: the case is outside the reference fragment."


# ---------------------------------------------------------------------------
# substitutions (triangular), unification, matching

def walk(x, s):
    while x.__class__ is V:
        y = s.get(x)
        if y is None:
            return x
        x = y[0]
    return x


def resolve(x, s):
    x = walk(x, s)
    if x.__class__ is tuple:
        return (x[0],) + tuple([resolve(a, s) for a in x[1:]])
    return x


def occurs(v, x, s):
    x = walk(x, s)
    if x is v:
        return True
    if x.__class__ is tuple:
        return any(occurs(v, a, s) for a in x[1:])
    return False


def const_eq(x, y):
    try:
        return bool(x == y)
    except Exception:
        return x is y


def unify(x, y, s):
    "Return an extended substitution (new dict) or None.  Values are boxed."
    stack = [(x, y)]
    s = dict(s)
    while stack:
        x, y = stack.pop()
        x = walk(x, s)
        y = walk(y, s)
        if x is y:
            continue
        if x.__class__ is V:
            if occurs(x, y, s):
                return None
            s[x] = (y,)
        elif y.__class__ is V:
            if occurs(y, x, s):
                return None
            s[y] = (x,)
        elif x.__class__ is tuple and y.__class__ is tuple:
            if len(x) != len(y) or x[0] != y[0]:
                return None
            stack.extend(zip(x[1:], y[1:]))
        elif x.__class__ is tuple or y.__class__ is tuple:
            return None
        elif not const_eq(x, y):
            return None
    return s


def match(x, y, s=None):
    "One-way matching: s(x) == y with y's variables treated as constants."
    s = {} if s is None else dict(s)
    stack = [(x, y)]
    while stack:
        x, y = stack.pop()
        if x.__class__ is V:
            if x in s:
                if not ident(s[x], y):
                    return None
            else:
                s[x] = y
        elif x.__class__ is tuple:
            if y.__class__ is not tuple or len(x) != len(y) or x[0] != y[0]:
                return None
            stack.extend(zip(x[1:], y[1:]))
        else:
            if y.__class__ in (tuple, V) or not const_eq(x, y):
                return None
    return s


def ident(x, y):
    "Structural identity (same variables)."
    if x.__class__ is V or y.__class__ is V:
        return x is y
    if x.__class__ is tuple:
        return (y.__class__ is tuple and len(x) == len(y) and x[0] == y[0]
                and all(ident(a, b) for a, b in zip(x[1:], y[1:])))
    if y.__class__ is tuple:
        return False
    return const_eq(x, y)


def apply(s, x):
    "Apply a matching substitution (not triangular)."
    if x.__class__ is V:
        return s.get(x, x)
    if x.__class__ is tuple:
        return (x[0],) + tuple([apply(s, a) for a in x[1:]])
    return x


def variables(x, acc=None):
    "Ordered list of distinct variables."
    if acc is None:
        acc = {}
    if x.__class__ is V:
        acc[x] = None
    elif x.__class__ is tuple:
        for a in x[1:]:
            variables(a, acc)
    elif x.__class__ is list:
        for a in x:
            variables(a, acc)
    return acc


def ground(x):
    if x.__class__ is V:
        return False
    if x.__class__ is tuple:
        return all(ground(a) for a in x[1:])
    return True


def rename(x, m=None):
    if m is None:
        m = {}
    if x.__class__ is V:
        if x not in m:
            m[x] = V()
        return m[x]
    if x.__class__ is tuple:
        return (x[0],) + tuple([rename(a, m) for a in x[1:]])
    if x.__class__ is list:
        return [rename(a, m) for a in x]
    return x


class C:
    "canonical variable marker, hashable by index"
    __slots__ = ('i',)
    pool = []

    def __repr__(self):
        return f'#{self.i}'


_canon_pool = []


def canon_var(i):
    while len(_canon_pool) <= i:
        v = V(f'#{len(_canon_pool)}')
        _canon_pool.append(v)
    return _canon_pool[i]


def canon(x, m=None):
    "Canonical variant: variables numbered left to right (hashable, interned)."
    if m is None:
        m = {}
    if x.__class__ is V:
        if x not in m:
            m[x] = canon_var(len(m))
        return m[x]
    if x.__class__ is tuple:
        return (x[0],) + tuple([canon(a, m) for a in x[1:]])
    return x


def covers(x, y):
    "x subsumes y as sets of ground instances (variables apart)."
    return match(rename(x), y) is not None


def variant(x, y):
    return canon(x) == canon(y)


def unifiable(x, y):
    return unify(rename(x), rename(y), {}) is not None


def depth(x):
    if x.__class__ is tuple:
        return 1 + max([depth(a) for a in x[1:]], default=0)
    return 0


def size(x):
    if x.__class__ is tuple:
        return 1 + sum(size(a) for a in x[1:])
    return 1


def subterms(x, acc):
    acc.add(x)
    if x.__class__ is tuple:
        for a in x[1:]:
            subterms(a, acc)
    return acc


# ---------------------------------------------------------------------------
# semirings over plain Python numbers

class Real:
    name = 'Float'
    zero, one = 0.0, 1.0
    idempotent = False

    @staticmethod
    def plus(a, b): return a + b

    @staticmethod
    def times(a, b): return a * b

    @staticmethod
    def many(a): return a * math.inf

    @staticmethod
    def dist(a, b):
        if a == b: return 0.0
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b): return math.inf
        return abs(a - b) / max(1.0, abs(a), abs(b))


class MinPlusR:
    name = 'MinPlus'
    zero, one = math.inf, 0.0
    idempotent = True

    @staticmethod
    def plus(a, b): return min(a, b)

    @staticmethod
    def times(a, b): return a + b

    @staticmethod
    def many(a): return a
    dist = Real.dist


class MaxTimesR:
    name = 'MaxTimes'
    zero, one = 0.0, 1.0
    idempotent = True

    @staticmethod
    def plus(a, b): return max(a, b)

    @staticmethod
    def times(a, b): return a * b

    @staticmethod
    def many(a): return a
    dist = Real.dist


class BoolR:
    name = 'Boolean'
    zero, one = False, True
    idempotent = True

    @staticmethod
    def plus(a, b): return a or b

    @staticmethod
    def times(a, b): return a and b

    @staticmethod
    def many(a): return a

    @staticmethod
    def dist(a, b): return 0.0 if bool(a) == bool(b) else 1.0


SEMIRINGS = {c.name: c for c in (Real, MinPlusR, MaxTimesR, BoolR)}


# ---------------------------------------------------------------------------
# builtins

CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b,
       '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
       '!=': lambda a, b: a != b, '==': lambda a, b: a == b}

ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
         '*': lambda a, b: a * b, '/': lambda a, b: a / b,
         'min': min, 'max': max}


def is_num(x):
    return isinstance(x, (int, float))


class Lam:
    "A quoted pattern (opaque to substitution): the first argument of `$not_matches`."
    __slots__ = ('x',)

    def __init__(self, x): self.x = x

    def __repr__(self): return f'"{show(self.x)}"'

    def __eq__(self, other): return isinstance(other, Lam) and variant(self.x, other.x)

    def __hash__(self): return hash(canon(self.x))


def is_builtin(y):
    return y.__class__ is tuple and len(y) == 3 and (y[0] in CMP or y[0] in ('=', 'is') or (y[0] == '$not_matches' and isinstance(y[1], Lam)))


def run_builtin(y, s):
    "Return list of substitutions, or None when not ready."
    f = y[0]
    if f == '=':
        t = unify(y[1], y[2], s)
        return [] if t is None else [t]
    if f == '$not_matches':
        b = resolve(y[2], s)
        if not unifiable(y[1].x, b): return [s]
        return [] if covers(y[1].x, b) else None
    a = resolve(y[1], s)
    b = resolve(y[2], s)
    if f in CMP:
        if f in ('!=', '=='):
            if not (ground(a) and ground(b)):
                return None
            e = ident(a, b)
            return [s] if (e if f == '==' else not e) else []
        if not (is_num(a) and is_num(b)):
            return None
        return [s] if CMP[f](a, b) else []
    assert f == 'is'
    if b.__class__ is not tuple:
        return None
    if len(b) == 3 and b[0] in ARITH:
        x, y1, z = a, b[1], b[2]
        if is_num(y1) and is_num(z):
            t = unify(a, ARITH[b[0]](y1, z), s)
            return [] if t is None else [t]
        # inverse modes
        if b[0] == '+':
            if is_num(x) and is_num(y1): t = unify(z, x - y1, s)
            elif is_num(x) and is_num(z): t = unify(y1, x - z, s)
            else: return None
        elif b[0] == '-':     # x = y - z
            if is_num(x) and is_num(z): t = unify(y1, x + z, s)
            elif is_num(x) and is_num(y1): t = unify(z, y1 - x, s)
            else: return None
        else:
            return None
        return [] if t is None else [t]
    if len(b) == 2 and b[0] == '-' and is_num(b[1]):
        t = unify(a, -b[1], s)
        return [] if t is None else [t]
    return None


# ---------------------------------------------------------------------------
# evaluation

class Chart:
    "fa -> list of (item, value, groundp); ground items also indexed by (pos,const)"

    def __init__(self, entries):
        self.by = {}
        for k, v in entries.items():
            key = (k[0], len(k)) if k.__class__ is tuple else None
            self.by.setdefault(key, []).append((k, v, ground(k)))
        self.ix = {}

    def candidates(self, q):
        if q.__class__ is V:
            return list(itertools.chain.from_iterable(self.by.values()))
        xs = self.by.get((q[0], len(q)), ())
        wild = self.by.get(None, ())     # variable-headed items
        if len(xs) > 8:
            for i in range(1, len(q)):
                a = q[i]
                if ground(a):
                    key = (q[0], len(q), i)
                    ix = self.ix.get(key)
                    if ix is None:
                        ix = {}
                        rest = []
                        for e in xs:
                            (ix.setdefault(e[0][i], []) if ground(e[0][i]) else rest).append(e)
                        self.ix[key] = ix = (ix, rest)
                    xs = ix[0].get(a, []) + ix[1]
                    break
        return list(xs) + list(wild) if wild else xs


def join(body, chart, sr, s, val, stats):
    "Yield (subst, value) for the conjunction; builtins run as soon as they are ready."
    if not body:
        yield s, val
        return
    # pick a ready builtin first, otherwise the leftmost ordinary subgoal
    for i, y in enumerate(body):
        if is_builtin(y):
            out = run_builtin(y, s)
            if out is not None:
                rest = body[:i] + body[i+1:]
                for t in out:
                    yield from join(rest, chart, sr, t, val, stats)
                return
    for i, y in enumerate(body):
        if is_builtin(y):
            continue
        rest = body[:i] + body[i+1:]
        y = resolve(y, s)
        if y.__class__ is not V and y.__class__ is not tuple:      # semiring constant
            yield from join(rest, chart, sr, s, sr.times(val, y), stats)
            return
        if y.__class__ is V:
            # a bare variable used as a factor: it must be bound by something else first
            others = [k for k, z in enumerate(rest) if not is_builtin(z) and walk(z, s).__class__ is not V]
            if others:
                yield from join(rest + [y], chart, sr, s, val, stats)
                return
        for (k, v, g) in chart.candidates(y):
            stats[0] += 1
            if stats[0] > stats[1]:
                raise RefLimit('join')
            t = unify(y, k if g else rename(k), s)
            if t is not None:
                yield from join(rest, chart, sr, t, sr.times(val, v), stats)
        return
    raise RefInst(repr(body))


def consequence(rules, chart_entries, sr, stats, keep=None, items_only=False, info=None):
    new = {}
    chart = Chart(chart_entries)
    for head, body in rules:
        for s, val in join(list(body), chart, sr, {}, sr.one, stats):
            if sr.dist(val, sr.zero) == 0:
                continue
            h = resolve(head, s)
            hv = variables(h)
            bv = variables([resolve(b, s) for b in body])
            if any(v not in hv for v in bv):
                iv = variables([resolve(b, s) for b in body if not is_builtin(b)])
                if any(v not in hv for v in iv): val = sr.many(val)
                else:               # free in built-ins only
                    if info is not None: info['builtin_free'] = True
                    if not items_only: val = sr.many(val)
            h = canon(h)
            if size(h) > 40:
                raise RefLimit('size')
            if keep is not None and not keep(h):
                continue
            if h in new:
                new[h] = sr.plus(new[h], val)
            else:
                new[h] = val
    return {k: v for k, v in new.items() if sr.dist(v, sr.zero) != 0}


def evaluate(rules, sr=Real, max_iter=200, max_items=1500, max_joins=150000, tol=1e-13, keep=None,
             info=None, items_only=False):
    """Least fixpoint by naive iteration; raises RefLimit if no convergence."""
    old = {}
    stats = [0, max_joins, time.time() + 4]
    for it in range(max_iter):
        new = consequence(rules, old, sr, stats, keep, items_only, info)
        if len(new) > max_items:
            raise RefLimit('items')
        if new.keys() == old.keys() and all(sr.dist(new[k], old[k]) <= tol for k in new):
            if info is not None:
                info['iters'] = it
                info['joins'] = stats[0]
            return new
        old = new
    raise RefLimit('iterations')


def value(chart, item, sr=Real):
    "Value of a ground atom: sum over the entries that cover it."
    t = sr.zero
    for k, v in chart.items():
        if match(k, item) is not None:
            t = sr.plus(t, v)
    return t


def query(chart, q, sr=Real):
    "Restrict the chart to q: {canonical instance: value}."
    out = {}
    for k, v in chart.items():
        s = unify(q, rename(k), {})
        if s is not None:
            h = canon(resolve(q, s))
            out[h] = sr.plus(out.get(h, sr.zero), v)
    return {k: v for k, v in out.items() if sr.dist(v, sr.zero) != 0}


FRESH = [('zz1',), ('zz2',), ('zz3',)]


def instances(x, universe):
    "All ground instances of x over the universe."
    vs = list(variables(x))
    for vals in itertools.product(universe, repeat=len(vs)):
        yield apply(dict(zip(vs, vals)), x)


def compare(a, b, sr=Real, tol=1e-6, universe=None):
    """Compare two charts as functions from ground atoms to values.

    Returns None or a list of up to 5 (atom, value in a, value in b).
    """
    bad = []
    if all(ground(k) for k in a) and all(ground(k) for k in b):
        for k in list(a) + [k for k in b if k not in a]:
            x = a.get(k, sr.zero)
            y = b.get(k, sr.zero)
            if sr.dist(x, y) > tol:
                bad.append((k, x, y))
        return bad[:5] or None
    U = set(universe or ())
    for k in list(a) + list(b):
        acc = set()
        for arg in (k[1:] if k.__class__ is tuple else ()):
            subterms(arg, acc)
        U |= {t for t in acc if ground(t)}
    U = sorted(U, key=repr)[:12] + FRESH[:2]
    seen = set()
    n = 0
    for k in list(a) + list(b):
        for g in instances(k, U):
            if g in seen:
                continue
            seen.add(g)
            n += 1
            if n > 20000:
                return bad[:5] or None
            x = value(a, g, sr)
            y = value(b, g, sr)
            if sr.dist(x, y) > tol:
                bad.append((g, x, y))
                if len(bad) > 4:
                    return bad
    return bad or None


# ---------------------------------------------------------------------------
# printing (for witnesses, and to hand programs to the code under test)

def show(x, m=None):
    if m is None:
        m = {}
    if x.__class__ is V:
        if x not in m:
            m[x] = f'V{len(m)}'
        return m[x]
    if x.__class__ is tuple:
        f = x[0]
        if f == '$cons' and len(x) == 3:
            return f'[{show(x[1], m)}|{show(x[2], m)}]'
        if f == '$nil' and len(x) == 1:
            return '[]'
        if (f in CMP or f in ('=', 'is', '+', '-', '*', '/')) and len(x) == 3:
            return f'({show(x[1], m)} {f} {show(x[2], m)})'
        if f == '-' and len(x) == 2:
            return f'(-{show(x[1], m)})'
        if len(x) == 1:
            return str(f)
        return f'{f}({",".join(show(a, m) for a in x[1:])})'
    if x is True: return 'true'
    if x is False: return 'false'
    if isinstance(x, str):
        return '"' + x + '"'
    if isinstance(x, float) and math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def show_rule(r):
    head, body = r
    m = {}
    h = show(head, m)
    if not body:
        return h + '.'
    return h + ' += ' + ' * '.join(show(b, m) for b in body) + '.'


def show_program(rules):
    return '\n'.join(show_rule(r) for r in rules)


def show_chart(c):
    return {show(k): v for k, v in sorted(c.items(), key=lambda kv: show(kv[0]))}
