"""Independent structural isomorphism of terms, rules and programs (reference representation)."""
from ref import V


def ckey(x):
    "constants are the same when type and value agree (booleans are not numbers, 1 is not 1.0)"
    return (x.__class__.__name__, x)


def loose(x):
    "constants as the code under test compares them (plain Python equality)"
    return x


def term_iso(x, y, fwd, bwd, key=ckey):
    """Extend the variable bijection (fwd, bwd) in place so that x becomes y; returns a trail
    (list of pairs to undo) or None (after undoing)."""
    trail = []
    stack = [(x, y)]
    ok = True
    while stack:
        x, y = stack.pop()
        if x.__class__ is V or y.__class__ is V:
            if x.__class__ is not y.__class__: ok = False; break
            a, b = fwd.get(x), bwd.get(y)
            if a is None and b is None:
                fwd[x] = y; bwd[y] = x; trail.append((x, y))
            elif a is not y or b is not x: ok = False; break
        elif x.__class__ is tuple or y.__class__ is tuple:
            if x.__class__ is not y.__class__ or len(x) != len(y): ok = False; break
            if x[0].__class__ in (tuple, V) or y[0].__class__ in (tuple, V): stack.append((x[0], y[0]))
            elif x[0] != y[0]: ok = False; break
            stack.extend(zip(x[1:], y[1:]))
        else:
            if key(x) != key(y): ok = False; break
    if not ok:
        undo(trail, fwd, bwd)
        return None
    return trail


def undo(trail, fwd, bwd):
    for a, b in trail:
        del fwd[a]; del bwd[b]


def terms_iso(x, y, key=ckey):
    return term_iso(x, y, {}, {}, key) is not None


def rule_iso(r, s, key=ckey):
    "same rule up to renaming of variables and order of subgoals"
    (h, b), (k, c) = r, s
    if len(b) != len(c): return False
    fwd, bwd = {}, {}
    if term_iso(h, k, fwd, bwd, key) is None: return False
    used = [False] * len(c)
    order = sorted(range(len(b)), key=lambda i: -sz(b[i]))

    def go(n):
        if n == len(order): return True
        x = b[order[n]]
        for j, y in enumerate(c):
            if used[j]: continue
            t = term_iso(x, y, fwd, bwd, key)
            if t is None: continue
            used[j] = True
            if go(n+1): return True
            used[j] = False
            undo(t, fwd, bwd)
        return False
    return go(0)


def sz(x):
    return 1 + sum(sz(a) for a in x[1:]) if x.__class__ is tuple else 1


def program_iso(P, Q, key=ckey):
    "same multiset of rules (rule isomorphism is an equivalence, so greedy matching is exact)"
    if len(P) != len(Q): return False
    rest = list(Q)
    for r in P:
        for i, s in enumerate(rest):
            if rule_iso(r, s, key):
                del rest[i]; break
        else:
            return False
    return True
