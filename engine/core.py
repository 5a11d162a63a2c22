"""Path exploration core: solver, decisions, process forking.

Every path is one process.  A decision whose two outcomes are both feasible
forks; the parent takes the outcome of the current model, the child the other
one.  All counters are per process *segment* (reset in the child), so summing the
records of all processes gives exact totals.
"""
import os, sys, time, json, mmap, random, gc
import z3


TRACE = os.environ.get('VERIF_TRACE')

def site(c):
    import traceback
    st = [f for f in traceback.extract_stack()[:-3] if '/engine/' not in f.filename][-2:]
    en = [f for f in traceback.extract_stack()[:-3]][-4:]
    with open(TRACE, 'a') as f:
        f.write(' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(st)) + ' | ' +
                ' < '.join('%s:%d' % (x.name, x.lineno) for x in reversed(en)) +
                ((' ' + str(c)[:300].replace('\n', ' ')) if os.environ.get('VERIF_TRACE_TERMS') else '') + '\n')


class Stop(BaseException):
    """Leaves the current path (never caught by code under test)."""


class Core(object):
    def __init__(self):
        self.active = False

    # -- set up -----------------------------------------------------------
    def start(self, seed, outfd, shared, tokens, deadline, limits, prefix=()):
        z3.set_param('smt.random_seed', seed)
        z3.set_param('sat.random_seed', seed)
        self.solver = z3.SolverFor('QF_BV')
        self.rlimit = limits.get('rlimit', 40000000)
        self.solver.set('rlimit', self.rlimit)
        self.model = None
        self.memo = {}
        self.keep = []
        self.seed = seed
        self.rng = random.Random(seed)
        self.outfd = outfd
        self.shared = shared
        self.tokens = tokens            # (rfd, wfd)
        self.deadline = deadline
        self.limits = limits
        self.have_token = True
        self.children = []
        self.inputs = []                # (name, kind, object)
        self.choices = []               # (name, index, label)
        self.observed = []
        self.approx = False             # an over-approximating model was used
        self.pins = 0
        self.fresh_n = 0
        self.pathid = ''
        self.nforks = 0
        self.trace = []
        self.active = True
        self.reset_segment()

    def reset_segment(self):
        self.seg = dict(queries=0, unknown=0, decisions=0, solver_s=0.0,
                        checks=0, forks=0, pins=0, forced=0)
        self.reached = {}
        self.pinsites = {}

    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    # -- solver -----------------------------------------------------------
    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.seg['solver_s'] += time.time() - t
        self.seg['queries'] += 1
        if r == z3.unknown:
            self.seg['unknown'] += 1
        return r

    def need_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                self.end('infeasible')
            if r == z3.unknown:
                self.end('unknown')
            self.model = self.solver.model()
        return self.model

    def meval(self, t):
        return self.need_model().eval(t, model_completion=True)

    def assume(self, c):
        """c: python bool or BoolRef."""
        if c is True:
            return
        if c is False:
            self.end('infeasible')
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.end('infeasible')
        self.solver.add(c)
        if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)):
            self.model = None
            self.need_model()

    def tick(self):
        self.seg['decisions'] += 1
        if self.shared[0]:
            self.end('stopped')
        if time.time() > self.deadline:
            self.end('deadline')
        if self.seg['decisions'] > self.limits.get('decisions', 200000):
            self.end('decision-limit')

    def decide(self, c):
        if c is True or c is False:
            return c
        k = c.get_id()
        hit = self.memo.get(k)
        if hit is not None:
            return hit
        c2 = z3.simplify(c)
        if z3.is_true(c2):
            v = True
        elif z3.is_false(c2):
            v = False
        else:
            k2 = c2.get_id()
            hit = self.memo.get(k2)
            if hit is None:
                self.tick()
                if TRACE:
                    site(c2)
                v = self._branch(c2)
                self.keep.append(c2)
                self.memo[k2] = v
            else:
                v = hit
        self.keep.append(c)
        self.memo[k] = v
        return v

    def _branch(self, c):
        m = self.need_model()
        side = z3.is_true(m.eval(c, model_completion=True))
        neg = z3.simplify(z3.Not(c))
        mine, other = (c, neg) if side else (neg, c)
        r = self.check(other)
        if r == z3.unsat:
            self.seg['forced'] += 1
            return side
        if r == z3.unknown:
            # other side not decided: explore only this one, path is cut there
            self.emit({'kind': 'cut', 'why': 'unknown'})
            self.solver.add(mine)
            return side
        om = self.solver.model()
        if self.fork():
            self.solver.add(other)
            self.model = om
            self.pathid += '1' if not side else '0'
            return not side
        self.solver.add(mine)
        self.pathid += '1' if side else '0'
        return side

    def implied(self, c):
        """True if c holds on every value of this path (no fork)."""
        if c is True or c is False:
            return c
        r = self.check(z3.Not(c))
        return r == z3.unsat

    def feasible(self, c):
        if c is True or c is False:
            return c
        return self.check(c) != z3.unsat

    # -- processes --------------------------------------------------------
    def fork(self):
        """Returns True in the child.  The parent either runs on concurrently
        (a token was free) or waits for the child's whole subtree."""
        self.seg['forks'] += 1
        self.nforks += 1
        sys.stdout.flush()
        got = False
        try:
            got = len(os.read(self.tokens[0], 1)) == 1
        except BlockingIOError:
            got = False
        pid = os.fork()
        if pid == 0:
            self.reset_segment()
            self.children = []
            self.have_token = got
            return True
        if got:
            self.children.append(pid)
        else:
            os.waitpid(pid, 0)
        self.reap()
        return False

    def reap(self):
        rest = []
        for p in self.children:
            try:
                q, st = os.waitpid(p, os.WNOHANG)
                if q == 0:
                    rest.append(p)
            except ChildProcessError:
                pass
        self.children = rest

    def emit(self, rec):
        os.write(self.outfd, (json.dumps(rec) + '\n').encode('utf-8', 'surrogatepass'))

    def end(self, kind, **kw):
        """Ends this process with a final record."""
        rec = {'kind': 'end', 'how': kind, 'seg': self.seg,
               'reached': self.reached, 'depth': len(self.pathid),
               'approx': self.approx, 'pinsites': self.pinsites}
        rec.update(kw)
        self.emit(rec)
        if self.have_token and self.tokens is not None:
            try:
                os.write(self.tokens[1], b'x')
            except OSError:
                pass
        # note: the token inherited by a serial child belongs to the parent
        os._exit(0)

    # -- nondeterministic choice -------------------------------------------
    def choose(self, name, options):
        n = len(options)
        if n == 0:
            self.end('infeasible')
        i = 0
        while i < n - 1:
            self.tick()
            if self.fork():
                i += 1
                self.pathid += 'c'
                continue
            break
        self.choices.append((name, i))
        return options[i]

    # -- model values -----------------------------------------------------
    def pin(self, t, site=None):
        """Concretises term t: value of the current model, added to the path."""
        self.need_model()
        v = self.model.eval(t, model_completion=True)
        c = z3.simplify(t == v)
        if not z3.is_true(c):
            self.solver.add(c)
            self.seg['pins'] += 1
            if site:
                self.pinsites[site] = self.pinsites.get(site, 0) + 1
        return v.as_long()

    def forkval(self, t):
        """Forks over all feasible values of t (unsigned)."""
        while True:
            m = self.need_model()
            v = m.eval(t, model_completion=True)
            if self.decide(t == v):
                return v.as_long()


C = Core()
