"""Writes DESIGN.md from the property list, the checks' own declarations, the known-findings file and the planted-bug results."""
import json, os, ast, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props

HEAD = '''# Design

All properties are decided by **runtime monitoring**: the real code in /repo is run on generated workloads while an
independent oracle watches what it does. Nothing is proved; the level of every check is "exploration". This file is
written by `tools/design.py` from `tools/props.py` (properties), the declarations at the top of `checks/check_cNN.py`
(workload, bounds, required events), `known_findings.json` and the notes below.

## The system

dyna-pi interprets, analyses and transforms weighted logic programs: a `Program` is a bag of rules
`head += factor * factor * ...` over a semiring; items may be non-ground; built-ins are delayed until they can run.
Its guarantees are semantic ("this transformation preserves meaning", "this solver computes the least fixpoint",
"this analysis over-approximates every execution"), so they quantify over all programs, data and schedules. There is no native code,
no threads and no I/O to speak of, so compiler sanitizers and race detectors have nothing to
observe here; what carries the weight are monitors on the behaviour.

## Machinery

* `lib/ref.py` - reference semantics, written from the documentation and sharing no code with /repo: terms as tuples,
  unification, matching, built-ins, naive least-fixpoint evaluation in four semirings (real, Boolean, min-plus,
  max-times) with non-ground items (a subgoal variable that stays free multiplies by infinity), comparison of charts
  as functions on ground atoms, with explicit limits (`RefLimit`: the case is skipped, and skips are reported).
* `lib/gen.py` - workload generators: random datalog with knobs (recursion, self-joins, diagonals, duplicate rules, constants,
  non-ground facts, structured terms, built-ins, variables as factors, odd weights) and structured families (paths,
  CKY, HMM, lists, counting, even/odd, chains).
* `lib/conv.py` - conversions between live objects and reference terms, so an oracle never trusts the printer or parser
  (except in C11/C12, which are about them).
* `lib/mon.py` - the runner: cases are a pure function of (property, seed, case number); workers with their own CPU-time
  limit per case; **hang monitor** (cases that exceed hundreds of times their usual cost in repository code count as a
  violation), **crash monitor** (an unexpected exception out of a repository frame is a violation), event counters,
  and required minima for them (`REQUIRED`): a run whose monitors saw too little is INCONCLUSIVE (exit 2), not "held".
  Evidence lists the events observed, skips by reason, timeouts, samples.
* `lib/iso.py`, `lib/foldwork.py`, `lib/xform.py`, `lib/lang.py`, `lib/terms.py` - isomorphism of programs, histories of fold/unfold
  steps, the evaluate-before-and-after oracle of the transformation checks, an independent printer of the surface language, term generators.
* `check Cxx [--tier quick|thorough] [--case N] [--replay FILE]` - launcher; imports dyna from `$VERIF_REPO` (default /repo) with no
  bytecode written, fixed hash seed. `VERIF_SEED` selects the workload. A violation writes a replay file with the failing program, data and
  both results.
* No hooks are compiled into /repo: Python lets the monitors observe live objects (variable cells, charts, agendas) directly, so
  MANIFEST.json has no `hooks` entry.

Cost: quick checks take 5-20 s each on 8 cores; thorough ones run 15-40 times as many cases under a 700 s wall cap (the numbers of
cases, per tier, are given below as quick/thorough). Every program is small (up to ~14 rules, ~500 items): the bounds are those of the
generators, and a bug that needs bigger programs is out of reach.

Quietness. Oracles compare denotations (values of ground atoms, sets of items, models), never the text or shape of code or
results, unless the shape is itself the promise (normal forms, canonical order, idempotence). Tolerances are documented in each check.
Each check was run on many seeds; every report was traced to a defect (below) or to the check (see "Corrected checks").
'''

NOTES = {
'C01': 'Agenda pops are counted and bounded logically. Tolerances follow the solver\'s documented `tol`.',
'C02': 'Charts are compared pointwise on all ground instances over the active domain plus two fresh constants.',
'C03': 'Outputs only; a value reported for an item that is not in the reference is a violation as well.',
'C38': 'The derivations are related by the mappings that C32 checks; symbolic measures are evaluated by substituting random weights for the rule variables.',
'C39': 'The conditions under which a fold must be found (heads cover the subgoal, range-restricted non-empty definitions, the unfolded rule not among them) are checked independently. Excluded: folds_seq / unfolds_seq (unverified proposals) and race (wall-clock).',
'C40': 'A derivation is outside of the slash mapping when a head of the divisor\'s relation is not of the divisor\'s pattern (the image would need a $not_matches constraint; the code refuses). Whatever the left-corner mapping refuses or fails on is counted and not judged: it is written for the most general divisor slashed to the bottom.',
'C04': 'Every prefix of the step sequence is compared, so a strategy that is right only at the fixpoint is still caught.',
'C05': 'Each Newton iterate must also stay below the least solution. Divergent or infinite systems are skipped (and counted).',
'C06': 'The monitor drives the same solver object through a history of increments and redundant calls, with custom agendas that reorder pops.',
'C07': 'A shadow table of all live variable cells is compared at each suspension point of the generators (also when they are abandoned by break, close() or an exception).',
'C08': '`covers`/`same` are specified for terms without common variables; tests fix what happens otherwise, so that case is not generated.',
'C19': 'Corrected check: `tidy()` was compared on non-output items.',
'C20': 'The search-level LCT actions are experimental (not reachable from documented entry points) and are not claimed.',
'C22': 'Corrected check: pruning is functor-level for inputs that rules also define (liveness is decided per functor by design at the fast levels). The original is compared on output items only.',
'C23': 'Open finding: usefulness types lose non-ground base rules (see below).',
'C25': 'Corrected check: variables that occur in built-ins only carry no multiplicity in snapped programs.',
'C26': 'The experimental LCT/slash search actions (`_drive_lct`, `_drive_slash*`) are excluded; budgets are counted in steps, not seconds, for determinism.',
'C27': '`$free(V)` is read as "a frozen variable that is shared with nothing else in the item". Disjointness is only compared on items whose frozen variables are apart; intersections with constrained queries on ground items. Parameter relations are interpreted on the actual data.',
'C28': 'List worlds use full element relations, because list constituents without variables are assumed to succeed (open finding). `<` between terms and numbers raises TypeError and is skipped.',
'C29': 'The concrete dependency graph is built by the reference from all rule instances over the derived items. Verdict monitors are one-sided (sound over-approximation is required, precision is not). Component-wise evaluation is done by the reference on the subprograms the decomposition returns.',
'C30': 'The oracle for running time is the least number of prefix firings over all subgoal orders, chosen anew for each partial instance, so it is below every order the analyser may have had in mind: no false alarm. Bounds that are infinite are counted separately, and how often a bound is tight is reported (`tight_size`, `tight_runtime`).',
'C31': 'Corrected check: semi-naive enumeration prepares one level more than it reports.',
'C32': 'Narrowed to unfold and safe folds: the LCT/speculation mappings have no inverse in the code and are exercised through values in C19/C20.',
'C33': 'Corrected check: definitions are lost when a program is equal to the original (they are then not "introduced").',
'C35': 'Usefulness on hypergraphs is bounded from both sides rather than fixed.',
'C37': 'Corrected check: variables used as factors and negative data in max-times have no delayed reading.',
}


def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'CASES', 'ASSUMPTIONS', 'CASE_LIMIT', 'REQUIRED'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


def main():
    out = [HEAD, '\n## Properties\n']
    kf = json.load(open(f'{V}/known_findings.json'))['findings']
    for p in props.P:
        c = f"{V}/checks/check_{p['id'].lower()}.py"
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        if not os.path.exists(c):
            out.append(f"Not applicable: {props.NA.get(p['id'])}\n"); continue
        d = consts(c)
        rule = d['RULE']
        out.append(f"*Workload and oracle* ({d['CASES'][0]}/{d['CASES'][1]} cases): {rule}.")
        out.append(f"*Decided by*: {p['technique']}. *Observed*: {', '.join(p['observe'])}.")
        if d.get('REQUIRED'): out.append('*A run must observe (per quick run, half of)*: ' + ', '.join(f'{k} {v}' for k, v in d['REQUIRED'].items()) + '.')
        if d.get('ASSUMPTIONS'): out.append('*Assumes*: ' + '; '.join(d['ASSUMPTIONS']) + '.')
        out.append(f"*Why beyond the tests*: {p['why']}")
        if p['id'] in NOTES: out.append(f"*Notes*: {NOTES[p['id']]}")
        n = [f for f in kf if f['property'] == p['id']]
        if n: out.append(f"*Findings*: " + '; '.join(f"{'open `' + f['key'] + '`' if f['status'] == 'open' else f['commit']}" for f in n) + '.')
        out.append('')
    out.append('\n## Genuine defects found\n\nOpen findings are listed in `known_findings.json` (key = the specific failure); all others were repaired by `fix:` commits.\n')
    for f in kf:
        out.append(f"* {f['property']} {f['status']}: {f['what'].split(' ', 3)[-1] if f['status'] == 'fixed' else f['what']}" + (f" ({f['commit']})" if f['commit'] else ''))
    out.append(open(f'{V}/tools/design_tail.md').read())
    r = f'{V}/tools/plant_results.json'
    if os.path.exists(r):
        out.append('\n| planted bug | property | needs | caught by |\n|---|---|---|---|')
        res = json.load(open(r))
        for id in sorted(res): out.append(f"| {id} | {res[id]['property']} | {res[id]['needs']} | {', '.join(res[id]['caught']) or 'nothing'} |")
    open(f'{V}/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
