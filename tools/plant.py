"""Confirm planted bugs in scratch copies:  python3 tools/plant.py [--no-tests] [--checks C01,C06] ID ...   (default: all)
For each: apply to a copy of /repo, byte-compile, run the stable tests, run demo.sh in the copy and in /repo, run the property's quick check."""
import sys, os, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notests = '--no-tests' in args
if notests: args.remove('--no-tests')
extra = []
if '--checks' in args:
    i = args.index('--checks'); extra = args[i+1].split(','); del args[i:i+2]
seeds = ['1']
if '--seeds' in args:
    i = args.index('--seeds'); seeds = args[i+1].split(','); del args[i:i+2]
ids = args or sorted(os.listdir(f'{V}/seeded'))
env0 = dict(os.environ, CI='true', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', HOME='/root')
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
PY = '/opt/venv/bin/python'

def run(cmd, cwd, env, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', str(e.stdout)[-500:]

def one(id):
    d = f'{V}/seeded/{id}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix=f'plant-{id}-', dir='/tmp')
    res = [id, prop]
    try:
        w = f'{tmp}/repo'
        shutil.copytree('/repo', w, symlinks=True)
        env = dict(env0, PYTHONPATH=w)
        rc, out = run(['git', 'apply', '--check', f'{d}/patch.diff'], w, env)
        if rc: return res + ['PATCH DOES NOT APPLY ' + out]
        rc0, out0 = run(['bash', f'{d}/demo.sh'], w, env, 300)
        run(['git', 'apply', f'{d}/patch.diff'], w, env)
        rc1, out1 = run(['bash', f'{d}/demo.sh'], w, env, 300)
        res.append('demo ' + ('ok' if rc0 == 0 and rc1 not in (0, 'timeout') else f'BAD {rc0} {rc1}: {out0[-600:]} // {out1[-300:]}'))
        if not notests:
            rc, out = run([PY, '-m', 'compileall', '-q', 'dyna'], w, env)
            if rc: return res + ['DOES NOT COMPILE']
            run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120', '--continue-on-collection-errors', '--tb=short', '-o', 'junit_family=xunit2', f'--junitxml={tmp}/junit.xml'], w, env)
            run(['/usr/bin/python3', '/opt/vp/results.py', f'{tmp}/o.json', f'junit:{tmp}/junit.xml'], w, env)
            try:
                got = json.load(open(f'{tmp}/o.json'))
                passed = set(got['passed'])
                miss = sorted(stable - passed)
            except Exception as e:
                miss = [repr(e)]
            res.append(f'tests {"ok" if not miss else "MISSING " + str(miss[:5])}')
        for c in [prop] + extra:
            for s in seeds:
                e = dict(env, VERIF_REPO=w, VERIF_EVIDENCE=f'{tmp}/ev', VERIF_SEED=s, VERIF_TIER='quick', VERIF_JOBS="2")
                if not os.path.exists(f'{V}/checks/check_{c.lower()}.py'): res.append(f'{c} no check'); continue
                rc, out = run([f'{V}/check', c], V, e)
                lines = [l for l in out.split('\n') if l.strip() and 'VIOLATION' not in l]
                res.append(f'{c}/s{s} ' + ({0: 'MISSED', 1: 'caught'}.get(rc, f'INCONCLUSIVE {rc}')) + f' [{lines[0][:150] if lines and rc else ""}]')
        return res
    finally:
        shutil.rmtree(tmp)

with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, ids): print(' | '.join(r), flush=True)
