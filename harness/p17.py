"""P17 All DEP parsers deliver the same receipts for every chunk size."""
import io, json
from librksv import depparser
from . import common as c
from .p13 import OneWay

DEP = depparser


class Obj(list):
    """JSON object as list of (name, value): keeps order and duplicates"""


def jtext(v):
    if isinstance(v, Obj):
        return '{' + ', '.join([json.dumps(k) + ': ' + jtext(x) for k, x in v]) + '}'
    if isinstance(v, list):
        return '[' + ', '.join([jtext(x) for x in v]) + ']'
    return json.dumps(v)


def jdict(v):
    """as an ordinary JSON value (the last of several equal names counts)"""
    if isinstance(v, Obj):
        r = {}
        for k, x in v:
            r[k] = jdict(x)
        return r
    if isinstance(v, list):
        return [jdict(x) for x in v]
    return v


class Short(io.BytesIO):
    """a file that delivers a few bytes at a time"""

    def read(self, n=-1):
        return io.BytesIO.read(self, 48 if n is None or n < 0 or n > 48 else n)

    def readinto(self, b):
        return io.BytesIO.readinto(self, memoryview(b)[:48])


def make(kind, tree, nparts=1, bom=False):
    if kind == 'dict':
        return DEP.DictDEPParser(jdict(tree), nparts)
    data = tree if isinstance(tree, bytes) else jtext(tree).encode('utf-8')
    if bom:
        data = b'\xef\xbb\xbf' + data
    if kind == 'fulltext':
        return DEP.FullFileDEPParser(io.StringIO(data.decode('utf-8')), nparts)
    if kind == 'full':
        return DEP.FullFileDEPParser(io.BytesIO(data), nparts)
    if kind == 'file':
        return DEP.IncrementalDEPParser.fromFd(io.BytesIO(data), True)
    if kind == 'short':
        return DEP.IncrementalDEPParser.fromFd(Short(data), True)
    if kind == 'stream':
        return DEP.IncrementalDEPParser.fromFd(OneWay(data), True)
    if kind == 'certless':
        return DEP.IncrementalDEPParser.fromFd(OneWay(data), False)
    return DEP.IncrementalDEPParser.fromFd(io.BytesIO(data), False)


ORDERS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
NAMES = ('Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt')


def group(cert, chain, recs, order=(0, 1, 2), extra=None):
    vals = ('' if cert == '' else c.cert_b64(cert), [c.cert_b64(x) for x in chain], list(recs))
    o = Obj([(NAMES[i], vals[i]) for i in order])
    if extra is not None:
        o.insert(extra[0], ('sonstiges', extra[1]))
    return o


def deliver(env, kind, p, chunk, groups, nparts=1, label=''):
    """groups: [(cert, chain, recs, order)]. Returns the chunks or None."""
    total = sum(len(g[2]) for g in groups)
    refuse = False
    vague = set()
    pos = 0
    for i, g in enumerate(groups):
        late = g[3].index(2) < 2
        end = pos + len(g[2])
        border = chunk > 0 and any(k % chunk == 0 for k in range(pos + 1, end + 1))
        if late and border:
            if kind == 'stream':
                refuse = True
            if kind in ('certless', 'certlessfile'):
                vague.add(i)
        pos = end
    chunks = []
    try:
        for ch in p.parse(chunk):
            chunks.append(ch)
    except DEP.DEPParseException:
        env.check(total == 0 or refuse, 'a well-formed DEP is parsed' + label)
        return None
    except Exception:
        env.fail('parsing fails with DEP parse errors only' + label)
        return None
    env.check(total > 0, 'a DEP without receipts is refused' + label)
    want = [(r, i) for i, g in enumerate(groups) for r in g[2]]
    got = []
    for ch in chunks:
        n = 0
        for recs, cert, chain in ch:
            for r in recs:
                got.append((r, cert, chain))
                n += 1
        env.check(len(ch) > 0 and n > 0, 'no empty chunks' + label)
        if chunk > 0:
            env.check(n <= chunk, 'chunks have at most the requested size' + label)
        elif kind in ('dict', 'full', 'fulltext') and nparts == 1:
            env.check(len(ch) == 1, 'chunk size zero: every group in its own chunk' + label)
    if chunk == 0 and nparts > 1 and kind in ('dict', 'full', 'fulltext'):
        env.check(len(chunks) <= nparts, 'at most the requested number of parts' + label)
    if chunk == 0 and kind in ('file', 'short', 'stream', 'certless', 'certlessfile'):
        env.check(len(chunks) == 1, 'chunk size zero: everything in one chunk' + label)
    env.check(len(got) == len(want), 'every receipt is delivered exactly once' + label)
    for (r, cert, chain), (w, i) in zip(got, want):
        env.check(DEP.expandDEPReceipt(r) == w, 'receipts are delivered in order' + label)
        wc = None if groups[i][0] == '' else c.CERT[groups[i][0]]
        wl = [c.CERT[x] for x in groups[i][1]]
        if i in vague:
            env.check((cert is None or cert == wc) and (list(chain) == [] or list(chain) == wl),
                      'a certificate that was not read yet is missing, not wrong' + label)
        else:
            env.check(cert == wc, 'receipts are attributed to the certificate of their group' + label)
            env.check(list(chain) == wl, 'receipts are attributed to the chain of their group' + label)
    return chunks


KINDS = ['dict', 'full', 'fulltext', 'file', 'short', 'stream', 'certless', 'certlessfile']
A_REC = 'a._äß"\\ \n'


def wellformed(env):
    """every way to write a DEP, every parser, every chunk size"""
    T = env.thorough
    n = env.choose('groups', [1, 2, 3])
    groups = []
    left = 4
    for i in range(n):
        k = env.choose('recs%d' % i, [x for x in range(0, 4) if x <= left and (n < 3 or x < 3)])
        left -= k
        cert = env.choose('cert%d' % i, ['LEAF', '']) if i != 1 else env.choose('cert%d' % i, ['LEAF', 'LEAFB'])
        chain = [['INT', 'ROOT', 'INT', 'LEAFB', 'ROOT', 'INT'], [], ['INT']][i] if cert else []
        order = env.choose('order%d' % i, ORDERS if T or n == 1 else [ORDERS[0], ORDERS[4]] if i < 2 else [ORDERS[0]])
        recs = []
        for j in range(k):
            x = env.str('r%d%d' % (i, j), 1, A_REC if i == j == 0 else 'ab._') + str(j)
            recs.append(x)
        groups.append((cert, chain, recs, order))
    tree = Obj([('Belege-Gruppe', [group(*g) for g in groups])])
    kind = env.choose('parser', KINDS)
    for chunk in (0, 1, 2, 3, 4, 5):
        for nparts in (1, 2, 3):
            if nparts > 1 and (chunk > 0 or kind not in ('dict', 'full', 'fulltext')):
                continue
            deliver(env, kind, make(kind, tree, nparts), chunk, groups, nparts)


def again(env):
    """parsers that can start over deliver everything again; a byte order mark and
    unknown elements do not matter"""
    order = env.choose('order', ORDERS if env.thorough else [ORDERS[0], ORDERS[3], ORDERS[4]])
    value = env.choose('value', [1, 'x', None, [], ['x', ['y']], Obj([('Belege-kompakt', ['x']), ('Signaturzertifikat', 'y')]),
                                 [Obj([('Zertifizierungsstellen', [])])]])
    groups = [('LEAF', ['INT', 'ROOT'], ['r.s.t', 'x.y.z'], order), ('LEAFB', [], [env.str('r', 1, A_REC if env.thorough else 'a."')], order)]
    at = env.choose('at', [0, 1, 2, 3])
    root = [('Belege-Gruppe', [group(*g[:4], extra=(at, value)) for g in groups])]
    where = env.choose('extra', ['before', 'after', 'both'])
    if where != 'after':
        root.insert(0, ('sonstiges', value))
    if where != 'before':
        root.append(('nochetwas', value))
    kind = env.choose('parser', KINDS)
    p = make(kind, Obj(root), bom=kind != 'dict' and kind not in ('stream', 'certless') and env.choose('bom', [False, True]))
    for chunk in ((2, 0, 1) if kind in ('dict', 'full', 'fulltext', 'file', 'short') else (2,)):
        deliver(env, kind, p, chunk, groups, label=' (unknown elements, several runs)')


WRONG = [None, True, 1, 1.5, 'x', '', [], ['x'], [1], [None], [[]], [Obj([])], Obj([]), Obj([('x', 'y')])]
BADCERT = ['x', 'AAAA', 'BADPUB', 'BADKEY', 'CUT', 'EC', 'Ä', '-----BEGIN CERTIFICATE-----', '\n', '=']


def definitely(where, v):
    """the value makes the DEP malformed whatever the parser"""
    if where == 'root':
        return True
    if where == 'groups':
        return True
    if where == 'group':
        return True
    if where == 'Signaturzertifikat':
        return v != ''
    if where == 'Zertifizierungsstellen':
        return v != [] or isinstance(v, Obj)
    if where == 'Belege-kompakt':
        return not (isinstance(v, list) and not isinstance(v, Obj)) or (v != ['x'] and v != [])
    if where == 'rec':
        return not isinstance(v, str)
    return True


def malformed(env):
    """one thing wrong with the structure"""
    T = env.thorough
    g0 = group('LEAF', ['INT'], ['a.b.c', 'd.e.f'], env.choose('order', ORDERS if T else [ORDERS[0], ORDERS[4]]))
    g1 = group('', [], ['g.h.i'])
    tree = Obj([('Belege-Gruppe', [g0, g1])])
    where = env.choose('where', ['root', 'groups', 'group', 'drop', 'rec', 'cert', 'chain', 'double', 'name'] + list(NAMES))
    env.reach('defect ' + where)
    v = None
    must = True
    if where == 'drop':
        name = env.choose('name', ['Belege-Gruppe'] + list(NAMES))
        if name == 'Belege-Gruppe':
            tree = Obj([])
        else:
            t = env.choose('g', [g0, g1])
            t[:] = [x for x in t if x[0] != name]
    elif where == 'double':
        # parsers that are given a JSON value instead of the text cannot see it
        must = None
        name = env.choose('name', ['Belege-Gruppe'] + list(NAMES))
        if name == 'Belege-Gruppe':
            tree.append(tree[0])
        else:
            g0.append([x for x in g0 if x[0] == name][0])
    elif where == 'name':
        name = env.choose('name', list(NAMES))
        new = env.choose('new', [name + ' ', name.lower(), '', 'item'])
        g0[:] = [(new, x) if k == name else (k, x) for k, x in g0]
    elif where == 'cert':
        g0[:] = [(k, badcert(env)) if k == NAMES[0] else (k, x) for k, x in g0]
    elif where == 'chain':
        x0 = env.choose('chain', [[], ['INT'], ['', 'INT']])
        b = badcert(env)
        new = [c.cert_b64(x) if x else b for x in x0]
        if '' not in x0:
            new.append(b)
        g0[:] = [(k, new) if k == NAMES[1] else (k, x) for k, x in g0]
    else:
        v = env.choose('value', WRONG)
        must = definitely(where, v)
        if where == 'root':
            tree = v
        elif where == 'groups':
            tree = Obj([('Belege-Gruppe', v)])
        elif where == 'group':
            tree[0][1][env.choose('i', [0, 1])] = v
        elif where == 'rec':
            lst = [x for k, x in g0 if k == 'Belege-kompakt'][0]
            lst[env.choose('i', [0, 1])] = v
        else:
            t = env.choose('g', [g0, g1])
            t[:] = [(k, v) if k == where else (k, x) for k, x in t]
    kind = env.choose('parser', KINDS)
    if must is None:
        must = kind not in ('dict', 'full', 'fulltext')
    for chunk in ((0, 1, 2, 5) if kind != 'dict' else (0, 1, 2)):
        refused(env, kind, tree, chunk, must)
    if kind in ('dict', 'full'):
        refused(env, kind, tree, 0, must, 2)


def badcert(env):
    b = env.choose('bad', BADCERT)
    if b == 'CUT':
        return c.cert_b64('LEAF')[:-8]
    if b == 'EC':
        return c.cert_b64('BADPUB')
    return c.cert_b64(b) if b in ('BADPUB', 'BADKEY') else b


def refused(env, kind, tree, chunk, must, nparts=1):
    try:
        for ch in make(kind, tree, nparts).parse(chunk):
            pass
    except DEP.DEPParseException:
        return
    except Exception:
        env.fail('malformed DEPs are rejected with DEP parse errors only')
        return
    env.check(not must, 'malformed DEPs are rejected by every parser')


BYTES = [b'{', b'}', b'[', b']', b',', b':', b'"', b' ', b'x', b'0', b'\\', b'\xff', b'\x00', b'\xef']


def cut(env):
    """the text ends early or has a wrong character somewhere"""
    tree = Obj([('Belege-Gruppe', [group('', [], ['a.b', 'c.d']), group('', [], ['e'], ORDERS[4])])])
    data = jtext(tree).encode('utf-8')
    step = 1 if env.thorough else 3
    i = env.choose('at', list(range(0, len(data), step)))
    how = env.choose('how', ['cut', 'byte', 'more'])
    if how == 'cut':
        data = data[:i]
    elif how == 'byte':
        data = data[:i] + env.choose('x', BYTES) + data[i + 1:]
    elif i < step:
        data = data + env.choose('x', BYTES)
    else:
        env.assume(False)
    kind = env.choose('parser', ['full', 'file', 'stream', 'certless'])
    for chunk in (0, 1, 2):
        refused(env, kind, data, chunk, how == 'cut')


class Watched(object):
    """a parser; something else happens after each of its chunks"""

    def __init__(self, p, after):
        self.p, self.after = p, after

    def parse(self, chunk):
        for ch in self.p.parse(chunk):
            yield ch
            self.after()


class Taken(object):
    """chunks that were read already, followed by the remaining ones"""

    def __init__(self, got, rest):
        self.got, self.rest = got, rest

    def parse(self, chunk):
        for ch in self.got:
            yield ch
        for ch in self.rest:
            yield ch


def interleaved(env):
    """two DEPs read alternately"""
    deps = []
    kinds = []
    for k in (0, 1):
        kind = env.choose('kind%d' % k, KINDS)
        names = ('LEAF', 'LEAFB') if env.choose('certs%d' % k, [0, 1]) else ('LEAFC', '')
        pre = 'ab'[k]
        groups = [(names[0], ['INT'], [pre + env.str('r%d' % k, 1, 'ab."'), pre + '2', pre + '3'], ORDERS[0]),
                  (names[1], ['INT', 'ROOT'] if names[1] else [], [pre + '4', pre + '5'], ORDERS[0])]
        deps.append((kind, make(kind, Obj([('Belege-Gruppe', [group(*g) for g in groups])])), groups))
    chunk = env.choose('chunk', [1, 2, 0])
    it = iter(deps[1][1].parse(chunk))
    got = []

    def step():
        for ch in it:
            got.append(ch)
            break
    env.choose('first', [lambda: None, step])()
    label = ' (two DEPs at a time)'
    try:
        deliver(env, deps[0][0], Watched(deps[0][1], step), chunk, deps[0][2], 1, label)
    except DEP.DEPException:
        env.fail('a well-formed DEP is parsed' + label)
        return
    deliver(env, deps[1][0], Taken(got, it), chunk, deps[1][2], 1, label)


CASES = [dict(name='wellformed', fn=wellformed, seconds=dict(quick=90, thorough=300)), dict(name='again', fn=again), dict(name='interleaved', fn=interleaved),
         dict(name='malformed', fn=malformed, seconds=dict(quick=60, thorough=240)), dict(name='cut', fn=cut)]
BOUNDS = ('DEPs of 1-3 groups and up to 4 receipts of 1-2 arbitrary characters, all orders of the elements of a group, groups '
          'with and without certificate and chains of up to 6 certificates, unknown elements; chunk sizes 0-5, 1-3 parts; all five '
          'parsers on binary, text, seekable and other files; every element of another type, missing, doubled or renamed, '
          'malformed certificates, two DEPs read alternately, texts cut or changed at every third (thorough: every) position')
OUTSIDE = 'files larger than the read buffer of the JSON library (files that deliver 48 bytes at a time take their place); deeply nested JSON'
ASSUMPTIONS = ['the JSON libraries (json, ijson) deliver string contents unchanged',
               'StreamDEPParser may refuse a group whose certificate follows the receipts when a chunk ends inside it; '
               'CertlessStreamDEPParser may then deliver no certificate']
