"""python3 tools/mkseed.py SPEC.py: build and confirm planted changes.

SPEC.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (Python source, fails by
exception when the behaviour is broken). Each is confirmed in a scratch worktree: patch applies, stable tests pass, demo exits 0
on the unchanged tree and nonzero with the patch; only then is /verif/seeded/<id>/ written."""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile

SEEDED = pathlib.Path('/verif/seeded')
SH = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work"
PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def tests(wt):
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(os.environ, PYTHONPATH=str(wt), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '1', '--timeout=120',
                            f'--rootdir={wt}', '--deselect', 'tests/compressible/test_equations.py::test_equation', f'{wt}/tests'],
                           cwd=d, env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-600:]

def main(spec, only):
    seeds = runpy.run_path(spec)['SEEDS']
    wt = pathlib.Path('/tmp/w/seedwt')
    sh(f'git worktree remove --force {wt}; git worktree prune', '/repo')
    sh(f'git worktree add --detach {wt} HEAD', '/repo')
    try:
        for s in seeds:
            if only and s['id'] not in only:
                continue
            sh('git checkout -q -- .', wt)
            for f, old, new in s['edits']:
                t = (wt / f).read_text()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT MATCHES', t.count(old), 'TIMES:', old[:60]); break
                (wt / f).write_text(t.replace(old, new))
            else:
                patch = sh('git diff', wt).stdout
                with tempfile.TemporaryDirectory() as d:
                    d = pathlib.Path(d)
                    (d / 'demo.py').write_text(s['demo'])
                    (d / 'demo.sh').write_text(SH)
                    ok, out = tests(wt)
                    bad = sh(f'bash {d}/demo.sh', wt)
                    sh('git checkout -q -- .', wt)
                    good = sh(f'bash {d}/demo.sh', wt)
                    if not ok: print(s['id'], 'TESTS FAIL', out); continue
                    if good.returncode: print(s['id'], 'DEMO FAILS ON HEAD', good.stderr[-800:]); continue
                    if not bad.returncode: print(s['id'], 'DEMO PASSES WITH PATCH', bad.stdout[-300:]); continue
                    t = SEEDED / s['id']
                    t.mkdir(parents=True, exist_ok=True)
                    (t / 'patch.diff').write_text(patch)
                    shutil.copy(d / 'demo.py', t); shutil.copy(d / 'demo.sh', t)
                    (t / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'],
                                                             'what_it_breaks': s['breaks']}, indent=1) + '\n')
                    print(s['id'], 'ok:', bad.stderr.strip().splitlines()[-1][:150] if bad.stderr.strip() else bad.returncode)
    finally:
        sh(f'git worktree remove --force {wt}; git worktree prune', '/repo')

main(sys.argv[1], set(sys.argv[2:]))
