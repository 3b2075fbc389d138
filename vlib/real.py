"""Replays scenarios on the real library.

    python real.py <jobs.json> <out.json>

jobs: {"property": id, "repo": dir, "jobs": [{"scenario":, "inputs": {}}]}
Each job runs in its own forked process inside a scratch directory (a crash of
the library is an observation, not the end of the run)."""
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True


def run_job(mod, job, thorough):
    from vlib.env_real import RealEnv, Skip, Assumption
    out = {'failures': [], 'findings': [], 'checked': 0, 'status': 'ok'}
    env = RealEnv(job['inputs'], thorough)
    try:
        fn = dict(mod.scenarios(thorough))[job['scenario']]
        fn(env)
    except Skip as e:
        out['status'] = f'skip: {e}'
    except Assumption:
        out['status'] = 'assumption'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out['failures'].append({'label': f"exception {type(e).__name__}", 'detail': ''.join(traceback.format_exception(e)[-6:])})
    out['failures'] += env.failures
    out['findings'] = env.findings
    out['checked'] = env.checked
    return out


def main():
    jobs_path, out_path = sys.argv[1:3]
    spec = json.load(open(jobs_path))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [here, spec['repo']]
    scratch = tempfile.mkdtemp(prefix='vreal_')
    os.chdir(scratch)
    import ngsolve   # noqa
    import dream.compressible  # noqa
    mod = importlib.import_module(f"props.{spec['property'].lower()}")
    results = []
    try:
        for i, job in enumerate(spec['jobs']):
            d = os.path.join(scratch, f"j{i}")
            os.mkdir(d)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.chdir(d)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                try:
                    out = run_job(mod, job, spec.get('thorough', False))
                except BaseException as e:
                    out = {'failures': [], 'findings': [], 'checked': 0, 'status': f'harness error {e!r}'}
                data = json.dumps(out, default=str).encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                os._exit(0)
            os.close(w)
            buf, t0, killed = b'', time.time(), False
            while True:
                ready, _, _ = select.select([r], [], [], 1.0)
                if ready:
                    c = os.read(r, 65536)
                    if not c:
                        break
                    buf += c
                elif time.time() - t0 > spec.get('job_timeout', 60):
                    os.kill(pid, signal.SIGKILL)
                    killed = True
                    break
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if killed:
                out = {'failures': [{'label': 'timeout', 'detail': 'the real run does not end'}], 'findings': [], 'checked': 0, 'status': 'timeout'}
            elif os.WIFSIGNALED(st):
                out = {'failures': [{'label': 'crash', 'detail': f'signal {os.WTERMSIG(st)}'}], 'findings': [], 'checked': 0, 'status': 'crash'}
            else:
                out = json.loads(buf or b'{"failures":[],"findings":[],"checked":0,"status":"no output"}')
            results.append(out)
            shutil.rmtree(d, ignore_errors=True)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    json.dump(results, open(out_path, 'w'))


if __name__ == '__main__':
    main()
