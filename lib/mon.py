"""Workload runner shared by all monitors: seeded cases spread over worker
processes, three-valued verdicts, replay files, known findings, evidence."""

import sys, os, json, time, random, hashlib, signal, traceback, argparse, resource, gc
from collections import Counter
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, REPO)


class Violation(Exception):
    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, prop, seed, case, tier):
        self.prop, self.seed, self.case, self.tier = prop, seed, case, tier
        h = hashlib.sha256(f'{prop}/{seed}/{case}'.encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], 'big'))
        self.count = Counter()
        self.keys = set()
        self.samples = []
        self.notes = {}

    def event(self, name, n=1):
        self.count[name] += n

    def nontrivial(self, key):
        "Register a distinct, non-trivial case (hashed)."
        self.keys.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def fail(self, msg, key=None, **detail):
        raise Violation(msg, key=key, **detail)

    def check(self, cond, msg, key=None, **detail):
        self.count['assertions'] += 1
        if not cond:
            raise Violation(msg, key=key, **detail)

    def skip(self, why):
        raise Skip(why)


def repo_frame(tb):
    "innermost-to-outermost: does the exception come out of the code under test?"
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        fn = os.path.abspath(f.filename)
        if fn.startswith(REPO + '/'):
            return f'{os.path.relpath(fn, REPO)}:{f.name}'
        if fn.startswith(VERIF + '/'):
            return None
    return None


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)): return [jsonable(y) for y in x]
        return repr(x)


def _alarm(*_):
    raise CaseTimeout()


def run_one(mod, prop, seed, case, tier, limit):
    ctx = Ctx(prop, seed, case, tier)
    out = {'case': case}
    t_start = time.time()
    old = signal.signal(signal.SIGPROF, _alarm)      # CPU time, not wall-clock
    random.seed(ctx.rng.random())
    try:
        import numpy
        numpy.random.seed(ctx.rng.randrange(2**31))
    except ImportError:
        pass
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        mod.run_case(ctx)
        out['status'] = 'ok'
    except Violation as e:
        out.update(status='violation', msg=e.msg, key=e.key, detail=jsonable({**ctx.notes, **e.detail}))
    except Skip as e:
        out.update(status='skip', why=str(e))
    except CaseTimeout as e:
        out.update(status='timeout', why=traceback.format_exc()[-1500:], detail=jsonable(ctx.notes),
                   where=repo_frame(e.__traceback__))
    except (RecursionError, MemoryError) as e:
        out.update(status='timeout', why=type(e).__name__ + traceback.format_exc()[-800:], where=repo_frame(e.__traceback__),
                   detail=jsonable(ctx.notes))
    except Exception as e:
        where = repo_frame(e.__traceback__)
        tb = traceback.format_exc()[-4000:]
        if where is not None and getattr(mod, 'CRASH_IS_VIOLATION', True):
            out.update(status='violation', key=f'crash:{type(e).__name__}@{where}',
                       msg=f'unexpected {type(e).__name__} out of {where}: {e}',
                       detail={'traceback': tb, **jsonable(ctx.notes)})
        else:
            out.update(status='error', msg=f'{type(e).__name__}: {e}', detail={'traceback': tb, **jsonable(ctx.notes)})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    out['time'] = time.time() - t_start
    out['count'] = ctx.count
    out['keys'] = ctx.keys
    out['samples'] = jsonable(ctx.samples)
    return out


def worker(modname, prop, seed, tier, cases, limit, deadline, q, wid):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(6000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)        # the code under test prints progress
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    import importlib
    mod = importlib.import_module(modname)
    agg = {'count': Counter(), 'keys': set(), 'samples': [], 'viol': [], 'err': [], 'done': 0,
           'skip': Counter(), 'timeout': [], 'cut': 0, 'slow': []}
    sent = 0
    for case in cases:
        if time.time() > deadline:
            agg['cut'] += 1
            continue
        o = run_one(mod, prop, seed, case, tier, limit)
        agg['done'] += 1
        agg['count'].update(o['count'])
        agg['keys'] |= o['keys']
        if len(agg['samples']) < 3:
            agg['samples'].extend(o['samples'])
        st = o['status']
        agg['slow'] = sorted(agg['slow'] + [(round(o['time'], 2), case, st, o.get('why'))], key=lambda t: t[:2])[-3:]
        if st == 'violation':
            if len(agg['viol']) < 40:
                agg['viol'].append(o)
        elif st == 'error':
            agg['err'].append(o)
        elif st == 'skip':
            agg['skip'][o['why']] += 1
        elif st == 'timeout':
            agg['timeout'].append((case, o.get('why'), o.get('where'), o.get('detail')))
        if len(agg['timeout']) > 4 or len(agg['err']) > 20:
            break
    q.put((wid, agg))


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in data.get('findings', []) if f['property'] == prop and f.get('status') == 'open']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--case', type=int)
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--replay')
    args = ap.parse_args(argv)
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    t0 = time.time()
    prop = args.prop
    modname = 'check_' + prop.lower()
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    import importlib
    mod = importlib.import_module(modname)
    import dyna
    assert os.path.abspath(dyna.__file__).startswith(REPO + '/'), dyna.__file__

    if args.replay:
        d = json.load(open(args.replay))
        args.seed, args.case, args.tier = d['seed'], d['case'], d['tier']
    if args.case is not None:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(6000)
        o = run_one(mod, prop, args.seed, args.case, args.tier, 600)
        o['keys'] = len(o['keys'])
        o['count'] = dict(o['count'])
        print(json.dumps(o, indent=1, default=repr).replace('\\n', '\n    '))
        sys.exit(1 if o['status'] == 'violation' else 0)

    n = args.cases or (mod.CASES[0] if args.tier == 'quick' else mod.CASES[1])
    wall = getattr(mod, 'WALL', (60, 700))[0 if args.tier == 'quick' else 1]
    limit = getattr(mod, 'CASE_LIMIT', (20, 40))[0 if args.tier == 'quick' else 1]
    deadline = t0 + wall
    J = args.jobs
    q = mp.Queue()
    order = list(range(n))
    ps = []
    for w in range(J):
        p = mp.Process(target=worker, args=(modname, prop, args.seed, args.tier, order[w::J], limit, deadline, q, w))
        p.start()
        ps.append(p)
    total = {'count': Counter(), 'keys': set(), 'samples': [], 'viol': [], 'err': [], 'done': 0,
             'skip': Counter(), 'timeout': [], 'cut': 0, 'slow': []}
    got = set()
    hard = deadline + limit * 3 + 60
    import queue as queue_
    while len(got) < J and time.time() < hard:
        try:
            wid, a = q.get(timeout=1)
        except queue_.Empty:
            if all(not p.is_alive() for p in ps):
                try:
                    while len(got) < J:
                        wid, a = q.get(timeout=1)
                        got.add(wid)
                        _merge(total, a)
                except queue_.Empty:
                    pass
                break
            continue
        got.add(wid)
        _merge(total, a)
    for p in ps:
        if p.is_alive():
            p.terminate()
        p.join(5)
    lost = J - len(got)

    # ---- verdict ----------------------------------------------------------
    findings = load_findings(prop)
    seen = Counter()
    fresh = []
    for v in sorted(total['viol'], key=lambda o: o['case']):
        hit = [f for f in findings if v.get('key') is not None and f['key'] == v['key']]
        if hit:
            seen[hit[0]['key']] += 1
        else:
            fresh.append(v)
    # the reference terminates on every case, so code under test that keeps exceeding the CPU limit
    # (hundreds of times the normal cost of a case) is itself a violation
    hung = [t for t in total['timeout'] if len(t) > 2 and t[2]]
    if getattr(mod, 'HANG_IS_VIOLATION', True) and len(hung) > max(2, min(8, 0.01 * n)):
        c = sorted(hung, key=lambda t: t[0])[0]
        fresh.append({'case': c[0], 'key': 'hang@' + c[2], 'detail': {'stack': c[1], 'notes': c[3]},
                      'msg': f'{len(hung)} cases do not terminate within {limit} s of CPU time (innermost repository frame {c[2]})'})
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['what']} (observed {seen[f['key']]}x in this run)")
    for v in fresh[:3]:
        path = os.path.join(EVID, 'replay', f"{prop}-s{args.seed}-c{v['case']}.json")
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'seed': args.seed, 'tier': args.tier, 'case': v['case'],
                       'key': v.get('key'), 'message': v['msg'], 'detail': v['detail'],
                       'replay_cmd': f'./check {prop} --replay {path}'}, fh, indent=1, default=repr)
        print(f"  {v['msg'][:600]}")
        print(f'VIOLATION property={prop} replay={path}')
    ok_cases = total['done']
    keys = len(total['keys'])
    ev = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': ok_cases,
            'distinct_nontrivial': keys,
            'rule': mod.RULE,
            'samples': total['samples'][:5] or ['(none)'],
            'monitor_events': dict(total['count'].most_common()),
            'skipped_cases': dict(total['skip'].most_common(12)),
            'timeouts': len(total['timeout']), 'timeout_cases': [t[0] for t in total['timeout'][:10]], 'cut_by_wall_cap': total['cut'],
            'harness_errors': len(total['err']), 'known_finding_hits': dict(seen),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=repr)
    tail = (f'{prop} [{args.tier} seed={args.seed}] cases={ok_cases}/{n} distinct={keys} '
            f"events={sum(total['count'].values())} skips={sum(total['skip'].values())} "
            f"timeouts={len(total['timeout'])} errors={len(total['err'])} wall={ev['wall_s']}s")
    if os.environ.get('VERIF_SLOW'):
        print(sorted(total['slow'], key=lambda t: t[:2])[-8:])
    if fresh:
        print(tail)
        print(f'{len(fresh)} violation(s)')
        sys.exit(1)
    problems = []
    if total['err']:
        e = total['err'][0]
        problems.append(f"harness error in case {e['case']}: {e['msg']}\n{e['detail'].get('traceback', '')}")
    if lost:
        problems.append(f'{lost} worker(s) died')
    if len(total['timeout']) > max(2, min(8, 0.02 * n)):
        problems.append(f"{len(total['timeout'])} cases timed out: {total['timeout'][:8]}")
    frac = getattr(mod, 'MIN_DONE', 0.5)
    if ok_cases < frac * n * (1 if args.tier == 'quick' else 0.2):
        problems.append(f'only {ok_cases} of {n} cases ran')
    for name, lo in getattr(mod, 'REQUIRED', {}).items():
        need = lo * min(1.0, ok_cases / max(1, mod.CASES[0]))
        if total['count'][name] < need * 0.5:
            problems.append(f'monitor event {name!r} observed {total["count"][name]} times, expected about {lo}')
    if keys == 0:
        problems.append('no non-trivial case observed')
    if problems:
        print('INCONCLUSIVE ' + tail)
        for x in problems: print('  ' + x)
        sys.exit(2)
    print('HELD ' + tail)
    sys.exit(0)


def _merge(t, a):
    t['count'].update(a['count'])
    t['keys'] |= a['keys']
    t['samples'].extend(a['samples'])
    for k in ('viol', 'err', 'timeout', 'slow'):
        t[k].extend(a[k])
    t['skip'].update(a['skip'])
    t['done'] += a['done']
    t['cut'] += a['cut']


if __name__ == '__main__':
    sys.modules['mon'] = sys.modules['__main__']
    main()
