"""P29 The converting tools neither lose, add nor alter receipts and certificates."""
import json, os, types
from librksv import url_receipt_helpers as UH
from . import common as c, tool
from .p04 import text
from .p18 import jws
from .p20 import _Requests, digest8

for _t in ('receipt', 'convert', 'split', 'merge', 'cert_extract', 'receipt_host'):
    tool.load(_t)
FORMATS = ['jws', 'qr', 'ocr', 'csv', 'url']


def dep(groups, order=0):
    """order: how many of the certificate elements follow the receipts"""
    d = _dep(groups)
    for g in d['Belege-Gruppe']:
        for n in ('Signaturzertifikat', 'Zertifizierungsstellen')[2 - order:]:
            x = g.pop(n)
            g[n] = x
    return d


def _dep(groups):
    return {'Belege-Gruppe': [{'Signaturzertifikat': '' if g[0] is None else c.cert_b64(g[0]),
                               'Zertifizierungsstellen': [c.cert_b64(x) for x in g[1]], 'Belege-kompakt': list(g[2])} for g in groups]}


def chunked(*args, chunks=None, **kw):
    """runs a tool with a preferred chunk size"""
    if chunks is not None:
        os.environ['RKSV_DEP_CHUNKSIZE'] = str(chunks)
    try:
        return tool.run(*args, **kw)
    finally:
        os.environ.pop('RKSV_DEP_CHUNKSIZE', None)


def flat(groups):
    return [(j, g[0], g[1]) for g in groups for j in g[2]]


def groups_of(env, t, label='a DEP is written'):
    """groups of a written DEP"""
    try:
        d = json.loads(t)['Belege-Gruppe']
        return [(g['Signaturzertifikat'], g['Zertifizierungsstellen'], g['Belege-kompakt']) for g in d]
    except Exception:
        env.fail(label)


def same(env, got, want, label):
    """got: groups as written; want: groups by certificate names"""
    a, b = flat(got), flat(want)
    env.check(len(a) == len(b), label + ': number of receipts')
    for (j, ce, ch), (k, name, chain) in zip(a, b):
        env.check(j == k, label + ': same receipts in the same order')
        env.check(ce == ('' if name is None else c.cert_b64(name)), label + ': certificate')
        env.check(ch == [c.cert_b64(x) for x in chain], label + ': chain')


def joined(recs):
    t = ''
    for r in recs:
        t = t + r + '\n'
    return t


def any_jws(env, i):
    # neither the identifiers are unique nor the dates in order
    return jws('r%d' % (i % 2), env.str('d%d' % i, 1, '0159'), [b'sig%', b'x' * 64, b'\xff\xfe\xfd'][i % 3], '2017-03-0%dT12:00:00' % (9 - i % 9))


def shape(env, n):
    """n groups of receipts"""
    out = []
    k = 0
    for i in range(n):
        recs = []
        for _ in range(env.choose('n%d' % i, [1, 2, 3] if env.thorough else [1, 2])):
            recs.append(any_jws(env, k))
            k += 1
        ce, ch = env.choose('c%d' % i, [('LEAF', ['INT', 'ROOT']), ('LEAFB', []), (None, [])])
        out.append((ce, ch, recs))
    return out


def converted(env):
    """receipt.py, every format to every format"""
    a, b = env.choose('in', FORMATS), env.choose('out', FORMATS)
    recs = [any_jws(env, i) for i in range(env.choose('n', [0, 1, 2]))]
    if a == 'url':
        recs = recs[:1]
    lines = ['http://x.y/z' if a == 'url' else text(a, r) for r in recs]
    bad = env.choose('bad', [None, 0, 1] if a != 'url' else [None])
    if bad is not None and bad <= len(lines):
        lines.insert(bad, env.choose('what', ['', '_R1-AT1_x', 'a.b.c']))
    end = env.choose('end', ['\n', '\r\n', 'none'])
    stdin = ''
    for i in range(len(lines)):
        stdin = stdin + lines[i] + ('' if end == 'none' and i == len(lines) - 1 else '\n' if end == 'none' else end)
    lost = end == 'none' and lines and len(lines[len(lines) - 1]) == 0
    r = tool.run('receipt', [a, b], stdin=stdin, patch=[(UH, 'requests', _Requests([], text('qr', recs[0]) if recs else '', False))])
    good = recs if bad is None or bad > len(recs) else recs[:bad]
    if lost:
        good = recs
    env.check((r.status == 0) == (len(good) == len(lines) or bool(lost)), 'receipts of every format are converted and anything else is refused')
    want = [digest8(text('qr', x)) if b == 'url' else text(b, x) for x in good]
    got = r.out.split('\n')
    env.check(len(got) == len(want) + 1 and len(got[len(got) - 1]) == 0, 'one line for each receipt')
    for x, y in zip(got, want):
        env.check(x == y, 'the receipt in the format asked for')


def csv(env):
    """convert.py there and back"""
    g = shape(env, env.choose('groups', [0, 1, 2, 3] if env.thorough else [0, 1, 2]))
    recs = [j for x in g for j in x[2]]
    r = chunked('convert', ['json2csv'], stdin=json.dumps(dep(g, env.choose('order', [0, 2]))), chunks=env.choose('size', [None, 1, 2]))
    if not g:
        # an empty DEP has no groups; whether it is one is up to the parser
        return
    env.check(r.status == 0, 'every DEP is converted')
    lines = r.out.split('\n')
    while lines and len(lines[len(lines) - 1]) == 0:
        lines.pop()
    env.check(len(lines) == len(recs) + 1, 'a header and one line for each receipt')
    for x, y in zip(lines[1:], recs):
        env.check(x == text('csv', y), 'every receipt as CSV, in order')
    r = tool.run('convert', ['csv2json'], stdin=r.out.rstrip('\n') + env.choose('end', ['\n', '']))
    env.check(r.status == 0, 'every CSV file is converted')
    same(env, groups_of(env, r.out), [(None, [], recs)], 'the DEP made from CSV')


def split(env):
    """split.py; the parts are complete and put together again by merge.py"""
    g = shape(env, env.choose('groups', [1, 2, 3] if env.thorough else [1, 2]))
    size = env.choose('size', [1, 2, 3, 4, 100] if env.thorough else [1, 2, 3, 100])
    there = env.choose('exists', [0, 1, 2])
    files = {'out/other.txt': 'x'} if there else {}
    if there == 2:
        # the parts of an earlier run
        files['out/dep-export0.json'] = json.dumps(dep([(None, [], [jws('old%d' % i) for i in range(9)])]))
    order = env.choose('order', [0, 1, 2]) if not there else 0
    d = dep(g, order)
    if not order and env.choose('extra', [0, 1]):
        d['Umsatz-gesamt'] = 5
    r = tool.run('split', [str(size), 'out'], files, json.dumps(d))
    if order and r.status != 0:
        # a stream cannot be read again if a part ends before the certificate is known
        env.reach('refused')
        return
    env.check(r.status == 0, 'every DEP is split')
    total = sum(len(x[2]) for x in g)
    n = 0
    parts = []
    while 'out/dep-export%d.json' % n in r.files:
        p = groups_of(env, r.files['out/dep-export%d.json' % n], 'every part is a DEP')
        k = sum(len(x[2]) for x in p)
        env.check(0 < k <= size, 'no part has more receipts than asked for')
        parts += p
        n += 1
    env.check(len(r.files) == n + (there > 0), 'only parts are written')
    env.check(n == (total + size - 1) // size, 'no more parts than needed')
    same(env, parts, g, 'the parts')
    names = ['out/dep-export%d.json' % i for i in range(n)]
    m = tool.run('merge', env.choose('merge', [['nomerge'], []]) + names + ([] if n > 1 else names[:1]), r.files)
    env.check(m.status == 0, 'the parts are merged')
    same(env, groups_of(env, m.out), g if n > 1 else g + g, 'the merged parts')


def merge(env):
    """merge.py on several DEPs"""
    k = env.choose('files', [2, 3])
    how = env.choose('how', ['plain', 'backwards', 'late1', 'late2', 'missing'])
    order = 2 if how[:4] == 'late' else 0
    size = int(how[4:]) if order else 1000
    files = {}
    g = []
    parts = []
    for i in range(k):
        x = [(env.choose('c%d%d' % (i, j), ['LEAF', None]), env.choose('ch%d%d' % (i, j), [[], ['INT']]) if k == 2 or env.thorough else ['INT'],
              [any_jws(env, 4 * i + 2 * j + l) if l == 0 else jws('x%d%d' % (i, j)) for l in range(1 + (i + j) % 2)])
             for j in range(env.choose('n%d' % i, [1, 2] if k == 2 else [1]))]
        files['f%d' % i] = json.dumps(dep(x, order))
        g += x
        parts.append(x)
    nomerge = env.choose('nomerge', [False, True])
    missing = how == 'missing'
    names = sorted(files)
    if how == 'backwards':
        names.reverse()
        g = []
        for x in parts[::-1]:
            g += x
    r = chunked('merge', (['nomerge'] if nomerge else []) + names + (['none'] if missing else []), files, chunks=size)
    env.check(all(r.files[n] == files[n] for n in files) and len(r.files) == len(files), 'no file is changed')
    if missing:
        env.check(r.status != 0, 'a missing file is not ignored')
        return
    env.check(r.status == 0, 'DEPs are merged')
    got = groups_of(env, r.out)
    same(env, got, g, 'the merged DEP')
    if nomerge:
        env.check(len(got) >= len(g), 'groups are not merged if asked not to')
    else:
        for a, b in zip(got, got[1:]):
            env.check(a[0] != b[0] or a[1] != b[1], 'adjacent groups with equal certificates are merged')


def pem(t):
    return ''.join(t.split('\n')[1:-1] if t.endswith('-') else t.strip().split('\n')[1:-1])


def certs(env):
    """cert_extract.py"""
    n = env.choose('groups', [1, 2, 3] if env.thorough else [1, 2])
    g = [(env.choose('c%d' % i, ['LEAF', 'LEAFB', None, 'LEAFC']), env.choose('ch%d' % i, [[], ['INT'], ['INT', 'ROOT']]), [jws('r%d' % i)]) for i in range(n)]
    there = env.choose('exists', [0, 1])
    r = tool.run('cert_extract', ['out'], {'out/other.txt': 'x'} if there else {}, json.dumps(dep(g)))
    used = set()
    for x in g:
        used.update(x[1])
        if x[0] is not None:
            used.add(x[0])
    env.check(r.status == 0, 'the certificates of every DEP are extracted')
    for u in used:
        name = 'out/%x.crt' % c.CERT[u].serial_number
        env.check(name in r.files, 'every certificate is written to a file named after its serial number')
        env.check(pem(r.files[name]) == c.cert_b64(u), 'the file contains the certificate')
        env.check(r.files[name].startswith('-----BEGIN CERTIFICATE-----\n'), 'the file contains the certificate')
    env.check(len(r.files) == len(used) + there, 'nothing else is written')


class Abort(Exception):
    pass


class Flask(object):
    """records the views; requests are made where the server would run"""
    urls = ()
    answers = ()

    def __init__(self, name):
        self.views = {}

    def errorhandler(self, code):
        return _identity

    def route(self, path, methods=()):
        def add(f):
            self.views[path] = f
            return f
        return add

    def run(self, *a, **kw):
        for u in Flask.urls:
            try:
                Flask.answers.append(self.views['/<string:url_hash>'](u))
            except Abort:
                Flask.answers.append(None)


def _identity(f):
    return f


def _abort(code):
    raise Abort()


def host(env):
    """receipt_host.py (the web framework is a stand-in)"""
    g = shape(env, env.choose('groups', [1, 2]))
    recs = [j for x in g for j in x[2]]
    how = env.choose('how', ['dep', 'jws'])
    m = types.ModuleType('flask')
    m.Flask, m.abort, m.jsonify, m.make_response = Flask, _abort, _identity, _identity
    Flask.urls = [digest8(text('qr', j)) for j in recs] + ['AAAAAAAAAAA', '']
    Flask.answers = []
    r = tool.run('receipt_host', [how], stdin=json.dumps(dep(g)) if how == 'dep' else joined(recs), modules={'flask': m})
    env.check(r.status == 0 and len(Flask.answers) == len(recs) + 2, 'every DEP is served')
    for a, j in zip(Flask.answers, recs):
        env.check(a is not None and a['code'] == text('qr', j), 'the URL hash of a receipt leads to its QR code')
    env.check(Flask.answers[len(recs)] is None and Flask.answers[len(recs) + 1] is None, 'other hashes lead nowhere')


CASES = [dict(name='converted', fn=converted), dict(name='csv', fn=csv), dict(name='split', fn=split, seconds=dict(quick=70, thorough=240)),
         dict(name='merge', fn=merge, seconds=dict(quick=90, thorough=240)),
         dict(name='certs', fn=certs), dict(name='host', fn=host)]
BOUNDS = ('receipt.py: 0-2 receipts of every format with symbolic contents, one bad line at any place, three line ends; convert.py, split.py, '
          'merge.py, cert_extract.py, receipt_host.py: DEPs of one or two groups (three) of one or two receipts (three) with and '
          'without certificates and chains, before or after the receipts, chunk sizes 1-1000, two or three files')
OUTSIDE = 'DEPs without groups; several certificates with one serial number (they share a file name); the web server itself'
ASSUMPTIONS = ['different texts have different hashes', 'flask is replaced by a stand-in that calls the view functions']
