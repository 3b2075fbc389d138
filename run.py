#!/usr/bin/env python3-vt
"""run.py <property> [--thorough] [--only SCENARIO] [-v]

Decides one property: the scenarios of props/<id>.py execute the current code of
/repo symbolically, z3 decides every goal over all inputs within the bounds,
counterexamples and path witnesses are replayed on the real library.
exit 0 held, 1 violated (VIOLATION line), 2 inconclusive."""
import argparse
import json
import os
import pickle
import selectors
import signal
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
REALPY = '/opt/venv/bin/python'
sys.path[:0] = [HERE, os.path.join(HERE, 'vlib', 'stub'), REPO]
sys.setrecursionlimit(20000)

ENCODED = set()


def start_monitor():
    mon = sys.monitoring
    mon.use_tool_id(3, 'verif')
    root = os.path.realpath(REPO) + os.sep + 'dream' + os.sep

    def cb(code, off):
        f = code.co_filename
        if f.startswith(root) and not code.co_name.startswith('<'):
            ENCODED.add(f"{f[len(root) - 6:]}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, cb)
    mon.set_events(3, mon.events.PY_START)


def load(prop):
    import importlib
    from vlib import engine as eng
    import ngsolve, netgen  # noqa  (stubs)
    eng.patch_math()            # before `from math import ...` in the code under test
    import dream, dream.compressible  # noqa
    assert os.path.realpath(dream.__file__).startswith(os.path.realpath(REPO)), dream.__file__
    eng.inject_builtins([m for n, m in list(sys.modules.items()) if n == 'dream' or n.startswith('dream.')])
    return importlib.import_module(f"props.{prop.lower()}")


def _worker(args):
    prop, name, thorough, scratch, opts = args
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    import logging
    logging.disable(logging.CRITICAL)
    mod = sys.modules[f"props.{prop.lower()}"]
    from vlib.env_sym import run_scenario
    ENCODED.clear()
    sys.monitoring.restart_events()
    fn = dict(mod.scenarios(thorough))[name]
    out = os.dup(1)
    if not os.environ.get('VERIF_DEBUG'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
    try:
        r = run_scenario(name, fn, thorough, timeout_ms=opts['timeout_ms'], max_paths=opts['max_paths'],
                         witness_cap=opts['witness_cap'])
    finally:
        os.dup2(out, 1)
    r['encoded'] = set(ENCODED)
    r['name'] = name
    return r


def fork_pool(tasks, width, budget):
    """one forked process per task, forked from this single thread; a worker that dies or does not
    answer in time becomes a problem of the run"""
    t0 = time.time()
    todo = list(enumerate(tasks))[::-1]
    live, done, lost = {}, {}, []
    sel = selectors.DefaultSelector()
    while todo or live:
        while todo and len(live) < width:
            i, t = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    try:
                        res = _worker(t)
                    except Exception as e:
                        res = f"{t[1]}: {type(e).__name__}: {e}"
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (i, pid, [])
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select(1.0):
            r = key.fd
            i, pid, buf = live[r]
            c = os.read(r, 1 << 20)
            if c:
                buf.append(c)
                continue
            sel.unregister(r)
            os.close(r)
            del live[r]
            _, st = os.waitpid(pid, 0)
            try:
                res = pickle.loads(b''.join(buf))
            except Exception:
                res = f"{tasks[i][1]}: worker ended without an answer (status {st})"
            if isinstance(res, str):
                lost.append(res)
            else:
                done[i] = res
        if time.time() - t0 > (budget if not any(r['candidates'] for r in done.values()) else min(budget, 300)):
            for r, (i, pid, buf) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                lost.append(f"{tasks[i][1]}: no verdict within the time limit")
            lost += [f"{t[1]}: not started within the time limit" for i, t in todo]
            break
    return [done[i] for i in sorted(done)], lost


def replay(prop, jobs, thorough, timeout):
    """one process of the real library for all jobs (split over the cores)"""
    if not jobs:
        return []
    n = max(1, min(8, len(jobs) // 4))
    chunks = [jobs[i::n] for i in range(n)]
    procs = []
    tmp = tempfile.mkdtemp(prefix='vreplay_')
    try:
        for i, c in enumerate(chunks):
            jp, op = os.path.join(tmp, f"j{i}.json"), os.path.join(tmp, f"o{i}.json")
            json.dump({'property': prop, 'repo': REPO, 'thorough': thorough, 'jobs': c}, open(jp, 'w'))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
            env.pop('PYTHONPATH', None)
            procs.append((subprocess.Popen([REALPY, os.path.join(HERE, 'vlib', 'real.py'), jp, op], env=env, cwd=tmp,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), op, c))
        res = {}
        for p, op, c in procs:
            try:
                so, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                so = 'timeout'
            if os.path.exists(op):
                for job, r in zip(c, json.load(open(op))):
                    res[id(job)] = r
            else:
                for job in c:
                    res[id(job)] = {'failures': [], 'findings': [], 'checked': 0, 'status': 'replay process failed: ' + (so or '')[-600:]}
        return [res[id(j)] for j in jobs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--no-witness', action='store_true')
    a = ap.parse_args()
    prop = a.property
    thorough = a.thorough or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    start_monitor()
    mod = load(prop)
    meta = mod.META
    names = [n for n, _ in mod.scenarios(thorough)]
    if a.only:
        names = [n for n in names if a.only in n]
    opts = {'timeout_ms': 60000 if thorough else 20000, 'max_paths': 20000 if thorough else 4000,
            'witness_cap': meta.get('witness_cap', 60 if thorough else 24)}
    base = tempfile.mkdtemp(prefix='vsym_')
    tasks = [(prop, n, thorough, os.path.join(base, f"s{i}"), opts) for i, n in enumerate(names)]
    deadline = meta.get('deadline', 3000 if thorough else 560)
    results = []
    problems = []
    try:
        if a.serial or len(tasks) == 1 and a.v:
            results = [_worker(t) for t in tasks]
            os.chdir(HERE)
        else:
            results, lost = fork_pool(tasks, 8, deadline - (time.time() - t0))
            problems += lost
    finally:
        shutil.rmtree(base, ignore_errors=True)

    # ------------------------------------------------------------- replays
    jobs, tags = [], []
    for r in results:
        # one counterexample per goal first, then the others
        order = sorted(((k, i, c, m) for i, c in enumerate(r['candidates']) for k, m in enumerate(c.models)), key=lambda t: t[:2])
        for _, _, c, m in order[:60 if not thorough else 400]:
            jobs.append({'scenario': c.scenario, 'inputs': m})
            tags.append(('cand', r, c))
        if not a.no_witness:
            for w in r['witnesses']:
                jobs.append({'scenario': r['name'], 'inputs': w})
                tags.append(('wit', r, None))
    outs = replay(prop, jobs, thorough, 1200 if thorough else 270)
    known = {}
    kf = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            if line.strip():
                d = json.loads(line)
                if d.get('status') == 'known':
                    known[(d['property'], d['finding'])] = d
    violations, confirmed = [], set()
    validated = skipped = 0
    seen_findings = {}
    for job, (kind, r, c), o in zip(jobs, tags, outs):
        for f in o['findings']:
            seen_findings.setdefault(f, job)
        st = o['status']
        if o['failures']:
            violations.append({'kind': kind, 'scenario': job['scenario'], 'inputs': job['inputs'],
                               'label': c.label if c else 'witness', 'detail': c.detail if c else '',
                               'observed': o['failures'][:3]})
            if c is not None:
                confirmed.add(id(c))
        elif kind == 'wit':
            if st == 'ok':
                validated += 1
            else:
                skipped += 1
                if not (st.startswith('skip') or st == 'assumption'):
                    problems.append(f"witness of {job['scenario']}: {st}")
                elif a.v:
                    print('witness', job['scenario'], st, job['inputs'])
        elif a.v:
            print('unreproduced', job['scenario'], c.label, st, job['inputs'], c.detail)
    labels_conf = {(v['scenario'], v['label']) for v in violations}
    for r in results:
        for c in r['candidates']:
            if id(c) not in confirmed and (c.scenario, c.label) not in labels_conf:
                problems.append(f"{c.scenario}/{c.label}: counterexample of the encoding not reproduced on the real code {c.detail[-1200:]}")
        if r.get('cut') and not r['candidates']:
            problems.append(f"{r['name']}: cut short")
        for u in r['unknown']:
            problems.append(f"{r['name']}/{u[0]}: solver gave no answer")
        for e in r['errors']:
            problems.append(f"{e[0]}: {e[1]}" + (f"\n{e[2]}" if a.v else ''))
        if not r['candidates'] and not r['errors'] and r['goals'] == 0:
            problems.append(f"{r['name']}: no goal reached (vacuous)")
        if not r['candidates'] and not r['witnesses'] and not r['errors']:
            problems.append(f"{r['name']}: no reachable path found (vacuous)")
        for f in r['findings']:
            seen_findings.setdefault(f, {'scenario': r['name'], 'inputs': r['finding_inputs'].get(f)})

    # recorded findings
    for f, job in sorted(seen_findings.items()):
        if (prop, f) in known:
            print(f"KNOWN-FINDING: property={prop} {f}: {known[(prop, f)]['what']}")
        else:
            violations.append({'kind': 'finding', 'scenario': job['scenario'], 'inputs': job['inputs'], 'label': f,
                               'detail': 'finding not listed in known_findings.jsonl', 'observed': []})

    # --------------------------------------------------------------- report
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    tot = {k: sum(r['stats'][k] for r in results) for k in ('queries', 'discharged', 'solver_s', 'unknown', 'paths', 'infeasible_paths', 'decisions_made')}
    encoded = sorted(set().union(*[r['encoded'] for r in results])) if results else []
    goals = sum(r['goals'] for r in results)
    status = 1 if violations else (2 if problems else 0)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['decisions_made'] + tot['paths'],
            'traces_validated_against_impl': validated,
            'samples': [{'scenario': r['name'], 'labels': sorted(r['labels'])[:12], 'paths': r['paths'], 'goals': r['goals'],
                         'witness': (r['witnesses'] or [None])[0], 'seconds': round(r['time'], 2)} for r in results],
            'explanation': 'states = feasible symbolic paths through the real python code, transitions = solver-decided branch points plus path starts; every goal is a z3 query over all inputs of its path',
            'functions_encoded': encoded, 'bounds': meta['bounds'], 'outside_bounds': meta.get('outside', []),
            'goals': goals, 'queries': tot['queries'], 'goals_discharged_unsat': tot['discharged'], 'solver_unknown': tot['unknown'],
            'solver_s': round(tot['solver_s'], 2), 'infeasible_paths': tot['infeasible_paths'],
            'witnesses_skipped': skipped, 'counterexamples_confirmed': len(confirmed),
            'known_findings_seen': sorted(seen_findings), 'inconclusive': problems[:20],
        },
        'assumptions': meta.get('assumptions', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    if not a.only:
        json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), 'w'), indent=1, default=str)
    seen = set()
    k = 0
    for v in sorted(violations, key=lambda v: v['kind'] != 'cand'):
        key = (v['scenario'], v['label'])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(EVID, 'replays', f"{prop}_{k}.json")
        k += 1
        json.dump({'property': prop, 'repo': REPO, 'thorough': thorough,
                   'jobs': [{'scenario': v['scenario'], 'inputs': v['inputs']}], 'violation': v,
                   'how': f"{REALPY} {HERE}/vlib/real.py {path} /dev/stdout"}, open(path, 'w'), indent=1, default=str)
        if k <= 12:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   {v['scenario']} / {v['label']}: {str(v['observed'][:1])[:600]} inputs {v['inputs']}")
    for p in problems[:15]:
        print("INCONCLUSIVE:", p)
    print(f"{prop}: {len(results)} scenarios, {tot['paths']} paths, {goals} goals, {tot['queries']} queries ({tot['discharged']} unsat goals, "
          f"{tot['unknown']} unknown), solver {tot['solver_s']:.1f}s, {validated} witnesses validated, {len(violations)} violations, wall {wall:.1f}s")
    if a.v:
        for r in sorted(results, key=lambda r: -r['time'])[:25]:
            print(f"   {r['name']}: {r['paths']} paths {r['goals']} goals {r['stats']['queries']} q {r['time']:.1f}s")
    sys.exit(status)


COMMON_ASSUMPTIONS = [
    "numbers are exact reals (floating-point rounding is outside)",
    "the ngsolve/netgen calls of the code are modelled by a stub with the library's dimension rules and pointwise semantics; "
    "a model of every explored path (up to a cap) is replayed on the real library in the same run",
]

if __name__ == '__main__':
    main()
