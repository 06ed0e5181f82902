"""C11: printing and re-parsing gives back the same program."""
import ref, conv, iso, lang
from common import *
from ref import V
from dyna import Program, Rule, Term, Var
from dyna.pretty import pp
from dyna.syntax import term as parse_term
import re

RULE = ('random terms, rules and programs over the whole surface language (all operators at all nestings, quoted names, '
        'strings with special characters, negative/huge numbers, lists with tails, booleans, several variables with one name, '
        'input/output declarations); print, parse, compare structurally; non-trivial = contains an operator; distinct by text')
CASES = (11200, 120000)
REQUIRED = {'round_trip_term': 5000, 'round_trip_rule': 5000, 'round_trip_program': 1000, 'declarations': 300}
ASSUMPTIONS = ['subgoals that are themselves products or conjunctions, semiring constants, operators that only occur '
               'internally (for, ==>, binary !), and functors containing a single quote other than inside a plain name are outside the printable language']


def live(x, m):
    if x.__class__ is V:
        if x not in m: m[x] = Var(x.name)
        return m[x]
    if x.__class__ is tuple: return Term(*[live(a, m) for a in x])
    return x


def pool(rng):
    vs = [V(rng.choice(lang.VARS)) for _ in range(rng.randint(1, 4))]
    if rng.random() < .3: vs.append(V(vs[0].name))
    return vs


def rule(rng, vs):
    while True:
        head = lang.term(rng, vs, rng.choice([1, 2, 3]), ops=.2, null=False)
        if head.__class__ is tuple: break
    body = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        while True:
            b = lang.term(rng, vs, rng.choice([0, 1, 2, 3]), ops=.5, null=False)
            if b.__class__ is tuple and len(b) == 3 and b[0] in (',', '*'): continue
            break
        body.append(b)
    return head, body


def run_case(ctx):
    rng = ctx.rng
    for _ in range(2):
        vs = pool(rng)
        x = lang.term(rng, vs, rng.choice([1, 2, 3, 4]))
        t = live(x, {})
        text = pp(t, color=False)
        ctx.notes['text'] = text
        y = conv.from_term(parse_term(text), {})
        ctx.check(iso.terms_iso(x, y), f'term {x!r} prints as {text!r} which parses as {y!r}', original=repr(x), text=text, parsed=repr(y))
        ctx.event('round_trip_term')
        if isinstance(t, (Term,)):
            ctx.check(re.sub('\x1b\\[[0-9;]*m', '', pp(t, color=True)) == text, f'colored and plain text differ: {text!r}')
        if lang.is_op(x): ctx.nontrivial(text)
    rules = []
    for _ in range(rng.choice([1, 2, 4])):
        r = rule(rng, pool(rng))
        rules.append(r)
        m = {}
        lr = Rule(live(r[0], m), *[live(b, m) for b in r[1]])
        text = pp(lr, color=False)
        ctx.notes['text'] = text
        q = Program(text + '.')
        got = conv.from_program(q)
        ctx.check(len(got) == 1 and iso.rule_iso(r, got[0]), f'rule {r!r} prints as {text!r} which parses as {got!r}', text=text)
        ctx.event('round_trip_rule')
        if r[1]: ctx.nontrivial(text)
    # whole programs
    kw = {}
    decl = {}
    if rng.random() < .5:
        for k in ('inputs', 'outputs'):
            ts = []
            for _ in range(rng.randint(1, 3)):
                vs = pool(rng)
                a = (lang.name(rng),) + tuple(lang.term(rng, vs, 2, ops=.3, null=False) for _ in range(rng.randint(0, 3)))
                ts.append(a)
            decl[k] = ts
            kw[k] = Program([Rule(live(a, {})) for a in ts])
    lrs = []
    for r in rules:
        m = {}
        lrs.append(Rule(live(r[0], m), *[live(b, m) for b in r[1]]))
    p = Program(lrs, **kw)
    text = p.plaintext()
    ctx.notes['text'] = text
    q = Program(text)
    ctx.check(iso.program_iso(rules, conv.from_program(q)), f'program does not survive print and parse:\n{text}', text=text)
    ctx.event('round_trip_program')
    for k, ts in decl.items():
        got = conv.from_program(getattr(q, k))
        ctx.check(iso.program_iso([(a, []) for a in ts], got), f'{k} declaration {ts!r} comes back as {got!r}', text=text)
        ctx.event('declarations')
    ctx.sample(text)
