"""Interface of the harnesses to the engine (symbolic mode)."""
import sys, traceback
import z3
from .core import C
from . import values as V, ops
from .values import Sym, SBool, SInt, SStr, SBytes, El, mkbool, rawbool, b_not


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {'b': bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {'d': [[jsonable(k), jsonable(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {'s': sorted((jsonable(y) for y in x), key=repr)}
    if isinstance(x, (str, int, bool, float, type(None))):
        return x
    if isinstance(x, type):
        return x.__name__
    if hasattr(x, 'isoformat'):
        return x.isoformat()
    return repr(type(x).__name__)


class SymEnv(object):
    symbolic = True

    def __init__(self, case, tier):
        self.case = case
        self.tier = tier
        self.thorough = tier == 'thorough'
        self._names = set()
        self._cand = {}

    def _name(self, n):
        k = n
        i = 1
        while k in self._names:
            i += 1
            k = '%s#%d' % (n, i)
        self._names.add(k)
        return k

    # inputs ----------------------------------------------------------------
    def str(self, name, length, alphabet):
        """string of `length` characters out of alphabet"""
        name = self._name(name)
        if length == 0:
            return ''
        dom = frozenset(ord(c) for c in alphabet)
        els = [self._char('%s[%d]' % (name, i), 21, dom) for i in range(length)]
        s = V.mkstr(els)
        C.inputs.append((name, s))
        return s

    def chars(self, name, sets):
        """string with one alphabet per position"""
        name = self._name(name)
        s = V.mkstr([self._char('%s[%d]' % (name, i), 21, frozenset(map(ord, a)))
                     for i, a in enumerate(sets)])
        C.inputs.append((name, s))
        return s

    def _char(self, name, w, dom):
        if len(dom) == 1:
            return next(iter(dom))
        m = max(dom)
        k = max(1, m.bit_length())
        if k < w:
            t0 = z3.BitVec(name, k)
            t = z3.ZeroExt(w - k, t0)
        else:
            t0 = t = z3.BitVec(name, w)
        if len(dom) != 1 << k:
            C.assume(V._ranges(t, sorted(dom)))
        e = El(t, w, dom)
        if w == 8:
            V.reg_el(e)
        else:
            e._t = z3.simplify(t)
            C.keep.append(e._t)
        return e

    def bytes(self, name, length, values=None):
        name = self._name(name)
        if length == 0:
            return b''
        dom = frozenset(range(256)) if values is None else frozenset(values)
        s = V.mkbytes([self._char('%s[%d]' % (name, i), 8, dom) for i in range(length)])
        C.inputs.append((name, s))
        return s

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            return lo
        w = V.need_width(lo, hi)
        t = z3.BitVec(name, w)
        if lo != -(1 << (w - 1)):
            C.assume(t >= lo)
        if hi != (1 << (w - 1)) - 1:
            C.assume(t <= hi)
        v = SInt(t, lo, hi)
        C.inputs.append((name, v))
        return v

    def bool(self, name):
        name = self._name(name)
        v = SBool(z3.Bool(name))
        C.inputs.append((name, v))
        return v

    def choose(self, name, options):
        options = list(options)
        name = self._name(name)
        if len(options) == 1:
            i = 0
        else:
            i = C.choose(name, list(range(len(options))))
            C.choices[-1] = (name, i)
        return options[i]

    # constraints and checks -------------------------------------------------
    def assume(self, c):
        C.assume(rawbool(c))

    def check(self, c, label):
        C.seg['checks'] += 1
        c = rawbool(c)
        if c is True:
            C.reached[label] = C.reached.get(label, 0) + 1
            return
        bad = b_not(c)
        r = C.check(bad) if bad is not True else z3.sat
        if r == z3.unsat:
            C.reached[label] = C.reached.get(label, 0) + 1
            return
        if r == z3.unknown:
            C.emit({'kind': 'cut', 'why': 'unknown', 'label': label})
        else:
            if bad is True:
                C.need_model()
                m = C.model
            else:
                m = C.solver.model()
            self._candidate(label, m)
            if C.approx:
                self._more_candidates(label, bad)
        # continue under the assumption that it holds
        if c is False:
            C.end('violated')
        C.assume(c)

    def _candidate(self, label, m):
        C.emit({'kind': 'candidate', 'label': label, 'inputs': self.inputs(m),
                'choices': [[n, i] for n, i in C.choices], 'path': C.pathid[:200],
                'approx': C.approx, 'pins': C.seg['pins']})

    def _more_candidates(self, label, bad):
        """the path used over-approximations: several different models are
        offered for the concrete replay"""
        terms = []
        for n, v in C.inputs:
            if isinstance(v, (SStr, SBytes)):
                terms += [(e.t, None if e.dom is None else sorted(e.dom)) for e in v.els if not isinstance(e, int)]
            elif isinstance(v, SInt):
                terms.append((v.t, (v.lo, v.hi)))
        extra = [] if bad is True else [bad]
        for i in range(24):
            C.rng.shuffle(terms)
            cons = []
            for t, d in terms:
                if isinstance(d, tuple):
                    x = C.rng.randint(*d)
                elif d:
                    x = C.rng.choice(d)
                else:
                    x = C.rng.getrandbits(t.size())
                cons.append(t == x)
            k = len(cons)
            while k:
                if C.check(*(extra + cons[:k])) == z3.sat:
                    break
                k //= 2
            if k or C.check(*extra) == z3.sat:
                self._candidate(label, C.solver.model())

    def fail(self, label):
        self.check(False, label)

    def reach(self, label):
        C.reached[label] = C.reached.get(label, 0) + 1

    def observe(self, name, value):
        C.observed.append((name, value))

    def inputs(self, m):
        return [[n, jsonable(ops.model_value(v, m))] for n, v in C.inputs]

    def implied(self, c):
        return C.implied(rawbool(c))

    def truth(self, c):
        """python bool (forks)"""
        return bool(c)

    def finish(self):
        kw = {}
        n = C.shared[1]
        if n < 60 or C.rng.random() < 0.02 or True:
            if n < 250:
                C.shared[1] = n + 1
            if n < 60 or (hash((C.pathid, C.seed)) % 50 == 0):
                m = C.need_model()
                try:
                    obs = [[k, jsonable(ops.model_value(v, m))] for k, v in C.observed]
                except Exception as e:
                    obs = [['!', repr(e)]]
                kw = {'inputs': self.inputs(m), 'choices': [[a, b] for a, b in C.choices],
                      'observed': obs}
        C.end('done', **kw)


def run_path(fn, env):
    try:
        fn(env)
    except BaseException as e:
        tb = traceback.format_exc()
        try:
            m = C.need_model()
            inp = env.inputs(m)
        except Exception:
            inp = None
        C.end('error', error=tb[-3000:], inputs=inp, choices=[[a, b] for a, b in C.choices])
    env.finish()
