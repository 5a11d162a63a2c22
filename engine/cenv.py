"""The harness interface in concrete mode: inputs come from a solver model."""


class Skip(BaseException):
    pass


class Fail(Exception):
    pass


def fromjson(x):
    if isinstance(x, dict):
        if 'b' in x:
            return bytes.fromhex(x['b'])
        if 'd' in x:
            return dict((fromjson(k), fromjson(v)) for k, v in x['d'])
        return set(fromjson(y) for y in x['s'])
    if isinstance(x, list):
        return [fromjson(y) for y in x]
    return x


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {'b': bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {'d': [[jsonable(k), jsonable(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {'s': sorted((jsonable(y) for y in x), key=repr)}
    if isinstance(x, (str, int, bool, float, type(None))):
        return x
    if isinstance(x, type):
        return x.__name__
    if hasattr(x, 'isoformat'):
        return x.isoformat()
    return repr(type(x).__name__)


class ConcEnv(object):
    symbolic = False

    def __init__(self, inputs, choices, tier='quick'):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self._in = dict((n, fromjson(v)) for n, v in inputs)
        self._ch = dict((n, i) for n, i in choices)
        self._names = set()
        self.failed = []
        self.passed = []
        self.observed = []
        self.reached = []
        self.missing = []

    def _name(self, n):
        k = n
        i = 1
        while k in self._names:
            i += 1
            k = '%s#%d' % (n, i)
        self._names.add(k)
        return k

    def _get(self, name, default):
        if name in self._in:
            return self._in[name]
        self.missing.append(name)
        return default

    def str(self, name, length, alphabet):
        name = self._name(name)
        if length == 0:
            return ''
        a = sorted(set(alphabet))
        if len(a) == 1:
            return a[0] * length
        return self._get(name, a[0] * length)

    def chars(self, name, sets):
        name = self._name(name)
        d = ''.join(sorted(a)[0] for a in sets)
        if all(len(set(a)) == 1 for a in sets):
            return d
        return self._get(name, d)

    def bytes(self, name, length, values=None):
        name = self._name(name)
        if length == 0:
            return b''
        return self._get(name, bytes(length) if values is None else bytes([sorted(values)[0]]) * length)

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            return lo
        return self._get(name, lo)

    def bool(self, name):
        return self._get(self._name(name), False)

    def choose(self, name, options):
        options = list(options)
        name = self._name(name)
        if len(options) == 1:
            return options[0]
        if name not in self._ch:
            self.missing.append(name)
        return options[self._ch.get(name, 0)]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        (self.passed if c else self.failed).append(label)
        if not c:
            raise Fail(label)

    def fail(self, label):
        self.check(False, label)

    def reach(self, label):
        self.reached.append(label)

    def observe(self, name, value):
        self.observed.append([name, jsonable(value)])

    def implied(self, c):
        return bool(c)

    def truth(self, c):
        return bool(c)
