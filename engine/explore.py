"""Drives the exploration of one harness case."""
import os, sys, time, json, mmap, tempfile, signal, subprocess, select, random
from . import core, ops, instr
from .core import C
from .env import SymEnv, run_path


class Worker(object):
    """concrete replays against the real code"""

    def __init__(self, module, here, repo):
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen(['/opt/venv/bin/python', os.path.join(here, 'replay_worker.py'),
                                   '--serve', module], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, universal_newlines=True)
        r = json.loads(self.p.stdout.readline() or '{"ready": false, "error": "died"}')
        self.ready = r['ready']
        self.error = r.get('error')
        self.n = 0

    def run(self, module, case, tier, inputs, choices, limit=60):
        self.n += 1
        self.p.stdin.write(json.dumps(dict(module=module, case=case, tier=tier, inputs=inputs,
                                           choices=choices, limit=limit)) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'status': 'died', 'failed': [], 'passed': [], 'observed': []}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def explore(module, case, tier, seed, seconds, jobs, worker, known, log, stop_on_violation=True):
    """returns a dict of results"""
    t0 = time.time()
    shared = mmap.mmap(-1, 4096)
    entry = mmap.mmap(-1, max(4096, len(instr.FUNCS) + 1))
    ops.entry_map = entry
    tmp = tempfile.NamedTemporaryFile(prefix='rksv-explore-', delete=False)
    outfd = os.open(tmp.name, os.O_WRONLY | os.O_APPEND)
    tr, tw = os.pipe()
    os.set_blocking(tr, False)
    os.set_blocking(tw, False)
    os.write(tw, b'x' * (jobs - 1))
    dr, dw = os.pipe()
    deadline = t0 + seconds
    limits = dict(case.get('limits', {}))
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(dr)
            C.start(seed, outfd, shared, (tr, tw), deadline, limits)
            run_path(case['fn'], SymEnv(case['name'], tier))
        finally:
            os._exit(3)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    os.close(dw)
    res = dict(case=case['name'], paths=0, ends={}, seg={}, reached={}, pinsites={}, cuts=0,
               violations=[], spurious=[], errors=[], samples=[], conform=0, mismatch=[], known=[], depth=0,
               approx=0, replayed=0)
    f = open(tmp.name, 'rb')
    buf = b''
    alive = True
    samples = []
    percap = {}

    def replay(rec):
        res['replayed'] += 1
        return worker.run(module, case['name'], tier, rec['inputs'], rec['choices'])

    def violation(label, rec, how):
        k = match_known(known, case['name'], label, rec)
        if k is not None:
            if k['id'] not in [x['id'] for x in res['known']]:
                res['known'].append(dict(id=k['id'], what=k['what']))
            return
        res['violations'].append(dict(label=label, inputs=rec['inputs'], choices=rec['choices'], how=how))
        if stop_on_violation:
            shared[0] = 1

    def handle(rec):
        k = rec['kind']
        if k == 'cut':
            res['cuts'] += 1
            return
        if k == 'candidate':
            lab = rec['label']
            if percap.get(lab, 0) >= (75 if rec['approx'] else 12) or res['violations']:
                return
            percap[lab] = percap.get(lab, 0) + 1
            out = replay(rec)
            if out['status'] == 'fail':
                violation(out['failed'][0], rec, 'solver counterexample')
            else:
                res['spurious'].append(dict(label=lab, status=out['status'],
                                            detail=str(out.get('error', ''))[-600:],
                                            approx=rec['approx'], inputs=rec['inputs'],
                                            choices=rec['choices']))
            return
        # end
        h = rec['how']
        res['paths'] += 1
        res['ends'][h] = res['ends'].get(h, 0) + 1
        for a, b in rec['seg'].items():
            res['seg'][a] = res['seg'].get(a, 0) + b
        for a, b in rec['reached'].items():
            res['reached'][a] = res['reached'].get(a, 0) + b
        for a, b in rec['pinsites'].items():
            res['pinsites'][a] = res['pinsites'].get(a, 0) + b
        res['depth'] = max(res['depth'], rec['depth'])
        res['approx'] += 1 if rec['approx'] else 0
        if h == 'error':
            if len(res['errors']) < 5:
                res['errors'].append(rec['error'])
                if rec.get('inputs') is not None:
                    out = replay(rec)
                    if out['status'] == 'fail':
                        violation(out['failed'][0], rec, 'concrete run of an aborted path')
        elif h == 'done' and 'inputs' in rec:
            samples.append(rec)
            if len(res['samples']) < 4:
                res['samples'].append(dict(case=case['name'], choices=rec['choices'], inputs=rec['inputs'],
                                           decisions=rec['depth'], reached=sorted(rec['reached'])))

    maxconf = case.get('conform', 25 if tier == 'quick' else 120)
    def conform(limit):
        while samples and res['conform'] < limit and not res['violations']:
            rec = samples.pop(0)
            out = replay(rec)
            res['conform'] += 1
            if out['status'] == 'fail':
                violation(out['failed'][0], rec, 'concrete run of a path model')
            elif out['status'] in ('error', 'timeout', 'died', 'skip'):
                if not rec['approx'] or out['status'] != 'skip':
                    res['mismatch'].append(dict(status=out['status'], detail=out.get('error', ''),
                                                inputs=rec['inputs'], choices=rec['choices']))
            elif not rec['approx'] and [x for x in rec['observed']] != out['observed']:
                d = [(a, b) for a, b in zip(rec['observed'], out['observed']) if a != b]
                res['mismatch'].append(dict(status='observation', detail=repr(d[:2] or
                                            (len(rec['observed']), len(out['observed'])))[:1500],
                                            inputs=rec['inputs'], choices=rec['choices']))

    done = False
    hard = deadline + 30
    while True:
        chunk = f.read()
        if chunk:
            buf += chunk
            lines = buf.split(b'\n')
            buf = lines.pop()
            for line in lines:
                handle(json.loads(line.decode('utf-8', 'surrogatepass')))
        elif done:
            break
        else:
            if not done:
                conform(min(maxconf, 10))
            r, _, _ = select.select([dr], [], [], 0.05)
            if r:
                if os.read(dr, 1) == b'':
                    done = True
            if time.time() > hard:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                res['ends']['killed'] = res['ends'].get('killed', 0) + 1
                done = True
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass
    conform(maxconf)
    f.close()
    os.close(outfd)
    os.unlink(tmp.name)
    for fd in (tr, tw, dr):
        os.close(fd)
    res['functions'] = ['%s.%s' % instr.FUNCS[i] for i in range(len(instr.FUNCS)) if entry[i]]
    ends = res['ends']
    forks = res['seg'].get('forks', 0)
    lost = forks + 1 - res['paths']
    res['lost'] = lost
    bad = sum(ends.get(k, 0) for k in ('deadline', 'stopped', 'unknown', 'decision-limit', 'error', 'killed'))
    res['exhausted'] = (bad == 0 and lost == 0 and res['cuts'] == 0 and
                        res['seg'].get('pins', 0) == 0 and not res['spurious'])
    res['wall'] = time.time() - t0
    return res


def match_known(known, case, label, rec):
    ch = dict((n, i) for n, i in rec['choices'])
    for k in known:
        if k['case'] != case or k['label'] != label:
            continue
        if all(ch.get(n) == i for n, i in k.get('choices', {}).items()):
            return k
    return None
