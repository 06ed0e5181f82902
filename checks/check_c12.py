"""C12: parsing follows the documented precedence and scoping."""
import ref, conv, iso, lang
from common import *
from ref import V
from lang import LEVEL, ULEVEL, ARG, LIST
from dyna import Program
from dyna.syntax import term as parse_term, parser
from dyna.term import term_vars
import re

RULE = ('random terms, rules and programs written by an independent printer in minimal-parenthesis, full-parenthesis, randomly '
        're-parenthesized, re-spaced and commented spellings, plus chained comparisons, "for", postfix operators, trailing commas, '
        ':- for +=, anonymous variables; non-trivial = at least two operators; distinct by text')
CASES = (12750, 120000)
REQUIRED = {'spelling_term': 9000, 'spelling_rule': 9000, 'chains': 400, 'anonymous': 300, 'scope_checks': 3000}
ASSUMPTIONS = ['operator table (priorities, associativity) as documented in the grammar; binary "!" is not part of the language']

WORD = re.compile(r"[\w'\"$∂]")
OPCH = set('=<>!-~:*/\\&|@#^+?;,∈↦.%')


class W:
    "writes a term as tokens"
    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        self.names = {}

    def var(self, v):
        if v.name == '_': return '_'
        if v not in self.names:
            n = v.name
            while n in self.names.values(): n += "'"
            self.names[v] = n
        return self.names[v]

    def paren(self, toks):
        return ['('] + toks + [')']

    def expr(self, x, lev):
        """tokens for x where only operators of level > lev may appear unparenthesized"""
        rng = self.rng
        toks, my = self.raw(x)
        if my <= lev: return self.paren(toks)
        if self.mode == 'full' and my <= ULEVEL: return self.paren(toks)
        if self.mode == 'random' and rng.random() < .2: return self.paren(toks)
        return toks

    def raw(self, x):
        rng = self.rng
        if x.__class__ is V: return [self.var(x)], 99
        if x.__class__ is not tuple: return [self.const(x)], 99
        if len(x) == 1:
            if x[0] in lang.NULL: return [x[0]], ULEVEL - .5 if False else LIST + .5
            if x[0] == '$nil': return ['[', ']'], 99
            f = self.fun(x[0])
            return ([f, '(', ')'] if rng.random() < .1 else [f]), 99
        if len(x) == 2 and x[0] in lang.UNARY:
            op, a = x
            if isinstance(a, (int, float)) and not isinstance(a, bool): inner = self.paren([self.const(a)])
            elif op == '!' and rng.random() < .5 and not lang.is_op(a) :
                return self.paren(self.expr(a, 98) + ['!']), 99
            else: inner = self.expr(a, ULEVEL if op == '!' else ULEVEL - .5)
            return [op] + inner, (ULEVEL + .5 if op == '!' else ULEVEL)
        if len(x) == 3 and x[0] in LEVEL:
            op, a, b = x
            l, assoc = LEVEL[op]
            up = .5
            A = self.expr(a, l - up if assoc == 'L' else l)
            B = self.expr(b, l - up if assoc == 'R' else l)
            if op == ',' and rng.random() < .3:           # "b for a" is "a, b"; binds looser than the comma
                B = self.expr(b, l - up)                   # right associative, operands may be conjunctions
                A = self.expr(a, l - 1)
                return B + ['for'] + A, l - .7
            return A + [op] + B, l
        if x[0] == '$cons' and len(x) == 3:
            items = []
            while x.__class__ is tuple and len(x) == 3 and x[0] == '$cons':
                items.append(self.expr(x[1], LIST)); x = x[2]
                if rng.random() < .1: break
            toks = ['[']
            for i, y in enumerate(items): toks += ([','] if i else []) + y
            if x != ('$nil',): toks += ['|'] + self.expr(x, LIST)
            return toks + [']'], 99
        toks = [self.fun(x[0]), '(']
        for i, a in enumerate(x[1:]): toks += ([','] if i else []) + self.expr(a, ARG)
        if rng.random() < .1: toks.append(',')
        return toks + [')'], 99

    def fun(self, f):
        if f in lang.PLAIN: return f if self.rng.random() < .9 or "'" in f else f"'{f}'"
        return f"'{f}'"

    def const(self, x):
        if x is True: return 'true'
        if x is False: return 'false'
        if isinstance(x, str):
            return '"' + x.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'
        s = repr(x)
        if isinstance(x, float) and s.startswith('0.') and 'e' not in s and self.rng.random() < .3: s = s[1:]
        if isinstance(x, int) and x >= 0 and self.rng.random() < .05 and self.mode != 'min': s = '+' + s
        return s

    def join(self, toks):
        rng = self.rng
        out = ''
        for i, t in enumerate(toks):
            if out:
                need = (WORD.match(out[-1]) and WORD.match(t[0])) or (out[-1] in OPCH and t[0] in OPCH) or (t == '.' and out[-1].isdigit() and False)
                u = rng.random()
                if self.mode == 'spaces' and u < .5:
                    out += rng.choice([' ', '  ', '\n', '\t', ' % a comment. with(stuff) += "\n', '\n %\n', ' %%% X\r\n'])
                elif need or u < .4:
                    out += ' '
            out += t
        return out


def flat(b, op):
    return isinstance(b, tuple) and len(b) == 3 and b[0] == op


def chain(rng, vs):
    "a chained comparison: source and structure"
    n = rng.randint(3, 5)
    ts = [lang.term(rng, vs, 1, null=False, ops=.4) for _ in range(n)]
    ops = [rng.choice(['<', '<=', '>', '>=']) for _ in range(n-1)]
    conj = None
    for i in range(n-1):
        y = (ops[i], ts[i], ts[i+1])
        conj = y if conj is None else (',', conj, y)
    return ts, ops, conj


def nops(x):
    return (1 if lang.is_op(x) else 0) + sum(nops(a) for a in x[1:]) if x.__class__ is tuple else 0


MODES = ['min', 'full', 'random', 'spaces', 'min']


def run_case(ctx):
    rng = ctx.rng
    vs = [V(n) for n in rng.sample(lang.VARS, 3)]
    x = lang.term(rng, vs, rng.choice([2, 3, 4]), ops=.7)
    for mode in rng.sample(MODES, 2):
        w = W(rng, mode)
        text = w.join(w.expr(x, -2))
        ctx.notes['text'] = text
        y = conv.from_term(parse_term(text), {})
        ctx.check(iso.terms_iso(x, y), f'{text!r} parses as {y!r}, intended {x!r}', text=text)
        ctx.event('spelling_term')
        if nops(x) > 1: ctx.nontrivial(text)

    if rng.random() < .2:
        ts, ops, want = chain(rng, vs)
        w = W(rng, rng.choice(MODES))
        toks = []
        for i, t in enumerate(ts):
            toks += w.expr(t, LEVEL['<'][0]) + ([ops[i]] if i < len(ops) else [])
        text = w.join(toks)
        ctx.notes['text'] = text
        y = conv.from_term(parse_term(text), {})
        ctx.check(iso.terms_iso(want, y), f'{text!r} parses as {y!r}, intended {want!r}', text=text)
        ctx.event('chains')

    # a program: several rules, variables named alike
    rules, text = [], ''
    mode = rng.choice(MODES)
    n = rng.choice([1, 2, 3, 5])
    for i in range(n):
        names = rng.sample(['X', 'Y', 'Z'], 2)
        rvs = [V(k) for k in names] + [V('_') for _ in range(rng.choice([0, 0, 2]))]
        w = W(rng, mode)
        once = {}
        def atom(d, ops):
            t = lang.term(rng, rvs, d, ops, null=False)
            # every occurrence of an anonymous variable is its own variable
            def split(u):
                if u.__class__ is V and u.name == '_':
                    ctx.event('anonymous')
                    return V('_')
                if u.__class__ is tuple: return (u[0],) + tuple(split(a) for a in u[1:])
                return u
            return split(t)
        while True:
            head = atom(rng.choice([1, 2]), .2)
            if head.__class__ is tuple: break
        body, toks = [], w.expr(head, 0.1)
        groups = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            g = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                while True:
                    b = atom(rng.choice([0, 1, 2]), .5)
                    if not flat(b, ',') and not flat(b, '*'): break
                g.append(b)
            groups.append(g)
        if groups:
            toks = toks + [rng.choice(['+=', ':-'])]
            for j, g in enumerate(groups):
                if j: toks.append(',')
                if len(g) == 1: toks += w.expr(g[0], LEVEL[','][0])
                else:
                    for k, b in enumerate(g):
                        if k: toks.append('*')
                        toks += w.expr(b, LEVEL['*'][0])
            body = [b for g in groups for b in g]
        rules.append((head, body))
        s = w.join(toks)
        text += s + '.' + rng.choice(['\n', ' ', '\n\n', ' % c\n', '\t'])
    ctx.notes['text'] = text
    parsed = parser(text)
    got = [conv.from_rule(r) for r in parsed]
    ctx.check(len(got) == len(rules), f'{len(rules)} rules written, {len(got)} parsed: {text!r}', text=text)
    for r, g in zip(rules, got):
        ctx.check(iso.rule_iso(r, g), f'rule intended as {r!r} parses as {g!r} in {text!r}', text=text)
        ctx.event('spelling_rule')
        if nops(r[0]) + sum(map(nops, r[1])) > 1: ctx.nontrivial(repr(r) + mode)
    # scoping: rules never share variable objects, nor do two parses of one text
    seen = {}
    again = parser(text)
    for i, r in enumerate([*parsed, *again]):
        for v in term_vars(r):
            ctx.check(seen.setdefault(id(v), i) == i, f'a variable is shared between rules {seen[id(v)]} and {i}: {text!r}', text=text)
            ctx.event('scope_checks')
    ctx.sample(text)
