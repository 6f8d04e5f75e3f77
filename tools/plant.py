"""Create and validate planted bugs.

tools/bugs/*.py define BUGS: list of dicts with id, property, edits (file, old,
new), demo (python source; raises on the bug), needs, breaks. For each:
  - the edits are applied to a scratch copy of /repo,
  - the stable tests must pass there, the demo must pass on /repo and fail there,
  - /verif/seeded/<id>/ is written,
  - with --check, the property's quick check is run against the scratch copy.
"""
import argparse
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '9d885d5'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: does not
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
export PYTHONPATH="$PWD" MPLBACKEND=Agg MPLCONFIGDIR="$work" PYTHONDONTWRITEBYTECODE=1
cd "$work" || exit 3
/opt/venv/bin/python "$here/demo.py"
rc=$?
cd /
rm -rf "$work"
exit $rc
'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True)


def load():
    bugs = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'bugs', '*.py'))):
        bugs += runpy.run_path(f)['BUGS']
    ids = [b['id'] for b in bugs]
    assert len(set(ids)) == len(ids), sorted(i for i in ids if ids.count(i) > 1)
    return bugs


def tests_pass(d):
    r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], d, PYTHONPATH=d, MPLBACKEND='Agg',
           PYTHONDONTWRITEBYTECODE='1')
    return r.returncode == 0, r.stdout[-600:]


def one(b, check, seeds, all_checks, jobs):
    out = {'id': b['id'], 'property': b['property']}
    d = tempfile.mkdtemp(prefix='weac-bug-')
    try:
        scratch = os.path.join(d, 'repo')
        shutil.copytree('/repo', scratch, ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in b['edits']:
            p = os.path.join(scratch, f)
            s = open(p).read()
            if s.count(old) != 1:
                return {**out, 'error': f'{s.count(old)} matches of {old!r}'}
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], scratch).stdout
        # only lines of the original repository count
        for f in {e[0] for e in b['edits']}:
            base = set(sh(['git', 'show', BASE + ':' + f], '/repo').stdout.splitlines())
            cur = sh(['git', 'diff', '-U0', '--', f], scratch).stdout.splitlines()
            for l in cur:
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base:
                    out['note'] = 'line of a fix commit: ' + l[1:].strip()[:60]
        ok, log = tests_pass(scratch)
        if not ok:
            return {**out, 'error': 'tests fail: ' + log}
        dest = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(dest, exist_ok=True)
        with open(os.path.join(dest, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(dest, 'demo.sh'), 'w') as f:
            f.write(DEMO)
        os.chmod(os.path.join(dest, 'demo.sh'), 0o755)
        with open(os.path.join(dest, 'demo.py'), 'w') as f:
            f.write(b['demo'].strip() + '\n')
        with open(os.path.join(dest, 'meta.json'), 'w') as f:
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        demo = os.path.join(dest, 'demo.sh')
        r0, r1 = sh([demo], '/repo'), sh([demo], scratch)
        if r0.returncode != 0 or r1.returncode == 0:
            return {**out, 'error': f'demo: clean {r0.returncode} {r0.stderr[-500:]} patched {r1.returncode}'}
        out['demo'] = r1.stderr.strip().splitlines()[-1][:150] if r1.stderr.strip() else ''
        if check:
            props = [f'C{i:02d}' for i in range(1, 100) if os.path.exists(
                os.path.join(ROOT, 'harness', 'props', f'c{i:02d}.py'))] if all_checks else [b['property']]
            out['caught'] = {}
            for p in props:
                for s in seeds:
                    r = sh([os.path.join(ROOT, 'check'), p, '--jobs', str(jobs)], ROOT, WEAC_REPO=scratch, VERIF_SEED=str(s),
                           VERIF_NO_WRITE='1')
                    out['caught'].setdefault(p, []).append(
                        {0: '-', 1: 'X'}.get(r.returncode, f'rc{r.returncode}'))
                    if p == b['property'] and r.returncode == 1:
                        out['why'] = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--check', action='store_true')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--seeds', default='1')
    ap.add_argument('--par', type=int, default=2)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--out')
    a = ap.parse_args()
    bugs = [b for b in load() if not a.ids or b['id'] in a.ids or any(b['id'].startswith(i) for i in a.ids)]
    seeds = [int(s) for s in a.seeds.split(',')]
    res = []
    with ThreadPoolExecutor(a.par) as ex:
        for r in ex.map(lambda b: one(b, a.check, seeds, a.all, a.jobs), bugs):
            res.append(r)
            own = r.get('caught', {}).get(r['property'])
            print(r['id'], r.get('error') or '', r.get('note') or '', 'own', own,
                  'all ' + ' '.join(k for k, v in r.get('caught', {}).items() if 'X' in v) if a.all else '',
                  (r.get('why') or [''])[0][:170], flush=True)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, indent=1)


main()
