#!/usr/bin/env python3
"""Develop planted bugs.  python3 tools/plant.py [ID...]   (re)creates seeded/<ID>/ from tools/bugs/*.py, in a scratch
copy of /repo: checks the demonstration on the clean copy, the patch, the stable tests and the demonstration with it."""
import importlib.util, json, os, subprocess, sys, shutil, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'tools/bugs/*.py'))):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    return bugs


DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on the demonstrated history, nonzero: it is broken.  cwd: the repository
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
export DEMO_SCRATCH="$W" SCIKIT_MINE_DATA="$W/data"
/opt/venv/bin/python "$D/demo.py"
'''


def tests(wt):
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('stable') or base['passed'])
    work = tempfile.mkdtemp()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', LC_ALL='C.UTF-8', TZ='UTC',
               MPLCONFIGDIR='/opt/venv/mplconfig', SCIKIT_MINE_DATA=work + '/data')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                    '--doctest-modules', '-o', 'junit_family=xunit2', f'--junitxml={work}/junit.xml', 'skmine'],
                   cwd=wt, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['python3', '/opt/vp/results.py', work + '/o.json', f'junit:{work}/junit.xml'], stdout=subprocess.DEVNULL)
    passed = set(json.load(open(work + '/o.json'))['passed'])
    shutil.rmtree(work)
    return sorted(stable - passed)


def main():
    bugs = load()
    ids = sys.argv[1:] or [i for i in bugs if not os.path.exists(os.path.join(VERIF, 'seeded', i, 'patch.diff'))]
    wt = '/tmp/plant_wt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    for i in ids:
        b = bugs[i]
        out = os.path.join(VERIF, 'seeded', i)
        tmp = tempfile.mkdtemp()
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.py', 'w').write(b['demo'].lstrip())
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=wt, check=True)
        clean = subprocess.run(['bash', tmp + '/demo.sh'], cwd=wt, capture_output=True, text=True, timeout=300)
        for f, old, new in b['edits']:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'EDIT', f, 'count', s.count(old), repr(old[:60]))
            s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True).stdout
        try:
            bad = subprocess.run(['bash', tmp + '/demo.sh'], cwd=wt, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            bad = subprocess.CompletedProcess([], 124, '', 'timeout')
        missing = tests(wt)
        good = clean.returncode == 0 and bad.returncode != 0 and not missing and diff
        print(i, 'OK' if good else 'REJECTED', 'clean', clean.returncode, 'bug', bad.returncode, 'missing', len(missing), missing[:2])
        if clean.returncode:
            print('   clean:', (clean.stdout + clean.stderr)[-500:])
        print('   bug:', (bad.stdout + bad.stderr).strip()[-160:].replace('\n', ' | '))
        if good:
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(tmp + '/' + f, out)
            open(out + '/patch.diff', 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp)
        sys.stdout.flush()
    shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    main()
