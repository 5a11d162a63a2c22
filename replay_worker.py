#!/opt/venv/bin/python
"""Runs harnesses with concrete inputs against the real code in /repo.

Server mode: one JSON request per line on stdin, one JSON answer per line on
stdout; every request runs in a forked child (time limit).
Single mode: replay_worker.py FILE  (a replay file written by check.py).
"""
import os, sys, json, traceback, signal, importlib, select

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def setup():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    os.chdir(REPO)
    import warnings
    warnings.simplefilter('ignore')


def run(req):
    from engine import cenv
    mod = importlib.import_module('harness.' + req['module'])
    case = [c for c in mod.CASES if c['name'] == req['case']][0]
    env = cenv.ConcEnv(req['inputs'], req['choices'], req.get('tier', 'quick'))
    out = {'status': 'ok'}
    try:
        case['fn'](env)
    except cenv.Skip:
        out['status'] = 'skip'
    except cenv.Fail:
        out['status'] = 'fail'
    except BaseException:
        out['status'] = 'error'
        out['error'] = traceback.format_exc()[-3000:]
    out.update(failed=env.failed, passed=env.passed, observed=env.observed,
               missing=env.missing[:10])
    return out


def serve_one(req, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = run(req)
        except BaseException:
            out = {'status': 'error', 'error': traceback.format_exc()[-3000:], 'failed': [],
                   'passed': [], 'observed': [], 'missing': []}
        data = json.dumps(out).encode()
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    data = b''
    import time
    end = time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0:
            break
        rr, _, _ = select.select([r], [], [], left)
        if not rr:
            break
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    if not data or time.time() >= end:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    try:
        return json.loads(data.decode())
    except ValueError:
        return {'status': 'timeout', 'failed': [], 'passed': [], 'observed': [], 'missing': []}


def main():
    setup()
    if len(sys.argv) > 1 and sys.argv[1] != '--serve':
        with open(sys.argv[1]) as f:
            req = json.load(f)
        out = serve_one(req, 120)
        print(json.dumps(out, indent=1))
        if out['status'] == 'fail':
            print('REPRODUCED: check(s) %s fail' % ', '.join(out['failed']))
            sys.exit(1)
        sys.exit(0 if out['status'] in ('ok', 'skip') else 2)
    proto = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mod = sys.argv[2]
    try:
        importlib.import_module('harness.' + mod)
    except BaseException:
        proto.write(json.dumps({'ready': False, 'error': traceback.format_exc()[-3000:]}) + '\n')
        proto.flush()
        return
    proto.write(json.dumps({'ready': True}) + '\n')
    proto.flush()
    for line in sys.stdin:
        req = json.loads(line)
        proto.write(json.dumps(serve_one(req, req.get('limit', 60))) + '\n')
        proto.flush()


if __name__ == '__main__':
    main()
