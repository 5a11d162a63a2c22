"""P18 Exporting, splitting and merging DEPs preserves all receipts and certificates."""
import io, json
from librksv import depexport, depparser, receipt, utils
from . import common as c
from .p13 import OneWay

DE, DP = depexport, depparser
NAMES = ('Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt')


def jws(rid, digit='0', sig=b'sig%', date='2017-03-01T12:00:00'):
    p = c.payload('AT1', 'reg', rid, date, (digit + ',00', '-0,05', '0,00', '0,10', '0,00'), c.TRA, '2f5a81', c.b64(b'chain---'))
    return c.b64u(c.HEADER.encode('utf-8')) + '.' + c.b64u(p.encode('utf-8')) + '.' + c.b64u(sig)


def tup(j):
    return receipt.Receipt.fromJWSString(j)


CHAINS = [[], ['INT', 'ROOT'], ['ROOT', 'INT', 'LEAFB'], ['ROOT']]


def cert(name):
    return None if name is None else c.CERT[name]


def certs(names):
    return [c.CERT[n] for n in names]


def make_groups(env, n, names, chains, counts, symbolic=True):
    """[(cert name, chain names, [jws])]"""
    out = []
    for i in range(n):
        k = env.choose('n%d' % i, counts)
        recs = [jws('r%d%d' % (i, j), env.str('d%d%d' % (i, j), 1, '0159') if symbolic and j == 0 else '7') for j in range(k)]
        out.append((env.choose('cert%d' % i, names), env.choose('chain%d' % i, chains), recs))
    return out


def feed(groups, lazy=False):
    """the groups as streams deliver them"""
    for name, chain, recs in groups:
        ts = [tup(j) for j in recs]
        yield ((x for x in ts) if lazy else ts), cert(name), certs(chain)


def flat(groups):
    return [(j, g[0], tuple(g[1])) for g in groups for j in g[2]]


def merged(groups):
    out = []
    for name, chain, recs in groups:
        if out and out[-1][0] == name and out[-1][1] == chain:
            out[-1] = (name, chain, out[-1][2] + recs)
        else:
            out.append((name, chain, recs))
    return out


def back(t):
    """a receipt tuple as JWS, made without the exporter"""
    return t[0].toJWSString(t[1])


def compare(env, got, want, label):
    """got: [(list of receipt tuples, cert, chain)]"""
    env.check(len(got) == len(want), label + ': number of groups')
    for (recs, ce, ch), (name, chain, js) in zip(got, want):
        env.check(len(recs) == len(js), label + ': receipts per group')
        for t, j in zip(recs, js):
            env.check(back(t) == j, label + ': same receipts in the same order')
        env.check(ce == cert(name), label + ': certificate')
        env.check(list(ch) == certs(chain), label + ': chain')


def guarded(env, fn, label):
    try:
        return fn()
    except Exception:
        env.fail(label)


def drain(s):
    return [(list(g[0]), g[1], g[2]) for g in s]


def plain(env):
    """streams deliver what was put into them, in order"""
    cls = env.choose('cls', [DE.DEPStream, DE.MergingDEPStream])
    ops = []
    groups = make_groups(env, 4, ['LEAF'], [[]], [1, 0] if env.thorough else [1], False)
    groups = [(['LEAF', 'LEAFB', None, 'LEAF'][i], [[], ['INT'], [], ['INT', 'ROOT']][i], g[2]) for i, g in enumerate(groups)]
    how = env.choose('start', ['none', 'list', 'generator', 'iterlist', 'iterlist3'])
    k = env.choose('k', [0, 1, 2])

    def run():
        todo = groups[k:]
        if how == 'none':
            s = cls()
            todo = list(groups)
        elif how == 'list':
            s = cls(list(feed(groups[:k])))
        elif how == 'generator':
            s = cls(feed(groups[:k]))
        elif how == 'iterlist':
            s = cls.fromIterList([feed(groups[:k])])
        else:
            s = cls.fromIterList([feed(groups[:1]), [], list(feed(groups[1:2]))])
            todo = groups[2:]
        out = []
        while todo:
            op = env.choose('op', ['append', 'extend', 'take', 'extend2'])
            if op == 'append':
                g = todo.pop(0)
                s.append([tup(j) for j in g[2]], cert(g[0]), certs(g[1]))
            elif op == 'extend':
                s.extend(list(feed([todo.pop(0)])))
            elif op == 'extend2':
                s.extend(feed(todo, True))
                todo = []
            else:
                done = len(groups) - len(todo)
                if len(out) == done:
                    env.assume(False)
                x = next(s)
                out.append((list(x[0]), x[1], x[2]))
        for x in s:
            out.append((list(x[0]), x[1], x[2]))
        return out
    got = guarded(env, run, 'streams can be extended and read')
    compare(env, got, merged(groups) if cls is DE.MergingDEPStream else groups, 'the stream delivers the groups')


def merging(env):
    """adjacent groups with equal certificate and chain are merged, others are not"""
    T = env.thorough
    n = env.choose('groups', [1, 2, 3, 4] if T else [1, 2, 3])
    groups = []
    for i in range(n):
        # arbitrary certificates (only their identity matters) and receipts
        k = env.choose('n%d' % i, [1, 0, 2] if n < 4 else [1, 0])
        ln = env.choose('chain%d' % i, [0, 1, 2] if n < 3 else [0, 1])
        groups.append((env.int('c%d' % i, 1, n), [env.int('h%d%d' % (i, j), 1, 3) for j in range(ln)],
                       [env.int('r%d%d' % (i, j), 0, 9) for j in range(k)]))
    lazy = env.choose('lazy', [True, False] if n < 3 or T else [True])
    how = env.choose('how', ['drain', 'later', 'partial', 'skip'] if n < 3 or T else ['drain', 'partial', 'skip'])

    def stream():
        for ce, ch, recs in groups:
            yield (iter(recs) if lazy else recs), ce, ch

    def run():
        s = DE.MergingDEPStream(stream())
        if how == 'drain':
            return drain(s)
        if how == 'later':
            # all groups first, then their receipts
            return [(list(g[0]), g[1], g[2]) for g in list(s)]
        out = []
        for g in s:
            recs = []
            if how == 'partial':
                # some receipts of every group, the rest when everything is known
                for x in g[0]:
                    recs.append(x)
                    break
            out.append((recs, g[0], g[1], g[2]))
        return [(a + list(b), x, y) for a, b, x, y in out]
    want = merged(groups)
    got = guarded(env, run, 'merging streams can be read')
    label = 'merging: ' + how
    env.check(len(got) == len(want), label + ': number of groups')
    for (recs, ce, ch), (wce, wch, wrecs) in zip(got, want):
        env.check(len(recs) == len(wrecs), label + ': receipts per group')
        for x, y in zip(recs, wrecs):
            env.check(x == y, label + ': same receipts in the same order')
        env.check(ce == wce, label + ': certificate')
        env.check(list(ch) == wch, label + ': chain')


def expected_export(groups):
    return [(g[0], g[1], g[2]) for g in groups]


def check_dict(env, d, groups, label):
    env.check(set(d) >= {'Belege-Gruppe'}, label + ': has groups')
    gs = d['Belege-Gruppe']
    env.check(len(gs) == len(groups), label + ': number of groups')
    for g, (name, chain, js) in zip(gs, groups):
        env.check(g['Signaturzertifikat'] == ('' if name is None else c.cert_b64(name)), label + ': certificate')
        env.check(list(g['Zertifizierungsstellen']) == [c.cert_b64(x) for x in chain], label + ': chain')
        env.check(list(g['Belege-kompakt']) == js, label + ': receipts')


def reparse(env, parser, chunk, groups, label):
    """parse and convert again; groups without receipts disappear, chunks may split groups"""
    want = [g for g in groups if g[2]]
    try:
        got = [(list(t), ce, ch) for t, ce, ch in DP.receiptGroupAdapter(parser.parse(chunk))]
    except DP.DEPParseException:
        env.check(not want, label + ': can be parsed')
        return
    except Exception:
        env.fail(label + ': can be parsed')
        return
    if chunk == 0:
        compare(env, got, want, label)
    else:
        a = [(back(t), ce, tuple(ch)) for recs, ce, ch in got for t in recs]
        b = [(j, cert(g[0]), tuple(certs(g[1]))) for g in want for j in g[2]]
        env.check(len(a) == len(b), label + ': number of receipts')
        for x, y in zip(a, b):
            env.check(x[0] == y[0], label + ': same receipts')
            env.check(x[1] == y[1] and x[2] == y[2], label + ': same certificates')


def export(env):
    """dictionary and JSON export, parsed again"""
    T = env.thorough
    n = env.choose('groups', [0, 1, 2, 3] if T else [0, 1, 2])
    groups = make_groups(env, n, ['LEAF', None] if n > 1 else ['LEAF', 'LEAFB', None], CHAINS[:3] if T or n < 2 else [[], ['ROOT', 'INT']],
                         [1, 0, 2])
    merge = env.choose('merge', [False, True])
    how = env.choose('how', ['dict', 'json', 'pretty'])
    want = merged(groups) if merge else groups
    extra = env.choose('extra', [None, {'a': [1, 'x']}])
    stream = (DE.MergingDEPStream if merge else DE.DEPStream)(feed(groups, True))

    def run():
        ex = DE.DEPExporter(stream, list) if how == 'dict' else DE.JSONExporter(stream, how == 'pretty')
        if extra is not None:
            ex.addExtra('zusatz', extra)
        return ex.export() if how == 'dict' else ''.join(ex.export())
    d = guarded(env, run, 'groups can be exported')
    text = None
    if how != 'dict':
        text = d
        try:
            d = json.loads(text)
        except ValueError:
            env.fail('the export is JSON')
            return
    check_dict(env, d, want, 'export')
    env.check(('zusatz' in d) == (extra is not None) and len(d) == (1 if extra is None else 2), 'extra elements are exported')
    if extra is not None:
        env.check(d['zusatz'] == extra, 'extra elements are exported')
    reparse(env, DP.DictDEPParser(d), 0, want, 'export and parse')
    if text is not None:
        for chunk in (1, 2, 3):
            reparse(env, DP.IncrementalDEPParser.fromFd(io.BytesIO(text.encode('utf-8'))), chunk, want, 'export and parse')


def single(env):
    """one group without a stream; CSV lines"""
    n = env.choose('n', [0, 1, 2, 3])
    js = [jws('r%d' % i, env.str('d%d' % i, 1, '0159'), env.bytes('s%d' % i, 2)) for i in range(n)]
    name = env.choose('cert', ['LEAF', None])
    chain = env.choose('chain', CHAINS)
    how = env.choose('how', ['json', 'csv', 'csvgroups', 'default'])

    def run():
        ts = [tup(j) for j in js]
        if how == 'default':
            return ''.join(DE.JSONExporter.fromSingleGroup(x for x in ts).export())
        if how == 'json':
            return ''.join(DE.JSONExporter.fromSingleGroup(ts, cert(name), certs(chain)).export())
        if how == 'csv':
            return ''.join(DE.CSVExporter.fromSingleGroup(ts, cert(name), certs(chain)).export())
        return ''.join(DE.CSVExporter(DE.DEPStream(feed([(name, chain, js[:1]), (None, [], []), (name, [], js[1:])]))).export())
    out = guarded(env, run, 'a single group can be exported')
    if how == 'json' or how == 'default':
        check_dict(env, json.loads(out), [(name, chain, js) if how == 'json' else (None, [], js)], 'single group')
        return
    lines = out.split('\n')
    env.check(len(lines) == n + 1, 'CSV: a header line and one line per receipt')
    env.check(len(lines[0].split(';')) == 13, 'CSV: header of 13 columns')
    for line, j in zip(lines[1:], js):
        try:
            r, p = receipt.Receipt.fromCSV(line)
            env.check(r.toJWSString(p) == j, 'CSV: the line is the receipt')
        except Exception:
            env.fail('CSV: the line is the receipt')


def split(env):
    """a DEP is split into parts of at most k receipts, written, read and merged again"""
    T = env.thorough
    n = env.choose('groups', [1, 2, 3] if T else [1, 2])
    groups = make_groups(env, n, ['LEAF', 'LEAFB', None] if T else ['LEAF', None], [[], ['INT']], [1, 2, 3] if n == 1 or T else [1, 2])
    k = env.choose('size', [1, 2, 3, 5])
    kind = env.choose('reader', ['file', 'stream'])
    chunk = env.choose('chunk', [1, 2, 0] if T else [1, 0])
    merge = env.choose('merge', [True, False])

    def write(gs):
        return ''.join(DE.JSONExporter(DE.DEPStream(gs)).export())

    def read(text, size):
        data = text.encode('utf-8')
        p = DP.IncrementalDEPParser.fromFd(OneWay(data) if kind == 'stream' else io.BytesIO(data), True)
        return DP.receiptGroupAdapter(p.parse(size))

    def run():
        whole = write(feed(groups))
        parts = [write(DP.receiptGroupAdapter([ch])) for ch in DP.IncrementalDEPParser.fromFd(
            io.BytesIO(whole.encode('utf-8')), True).parse(k)]
        for p in parts:
            d = json.loads(p)
            m = sum(len(g['Belege-kompakt']) for g in d['Belege-Gruppe'])
            env.check(0 < m <= k, 'parts have at most the requested size')
        cls = DE.MergingDEPStream if merge else DE.DEPStream
        s = cls.fromIterList([read(p, chunk) for p in parts])
        return json.loads(''.join(DE.JSONExporter(s).export()))
    d = guarded(env, run, 'a DEP can be split and merged again')
    if merge:
        check_dict(env, d, merged(groups), 'split and merge')
    else:
        got = [(j, g['Signaturzertifikat'], tuple(g['Zertifizierungsstellen'])) for g in d['Belege-Gruppe'] for j in g['Belege-kompakt']]
        want = [(j, '' if g[0] is None else c.cert_b64(g[0]), tuple(c.cert_b64(x) for x in g[1])) for g in groups for j in g[2]]
        env.check(len(got) == len(want), 'split and concatenate: number of receipts')
        for a, b in zip(got, want):
            env.check(a[0] == b[0] and a[1] == b[1] and a[2] == b[2], 'split and concatenate: receipts and certificates')


def interleaved(env):
    """two exports at a time, with elements of their own"""
    both = []
    for k in (0, 1):
        groups = make_groups(env, 2, ['LEAF', None], [['INT']] if k else [[]], [1, 2] if k else [2], k == 0)
        merge = env.choose('merge%d' % k, [False, True])
        cls = DE.MergingDEPStream if merge else DE.DEPStream
        lazy = k == 0
        ex = guarded(env, lambda: DE.JSONExporter(cls(feed(groups, lazy))), 'groups can be exported')
        both.append((ex, merged(groups) if merge else groups))
    extra = env.choose('extra', [0, 1])
    guarded(env, lambda: both[extra][0].addExtra('zusatz', 7), 'groups can be exported')
    turns = env.choose('turns', ['alternately', 'nested', 'one by one'])
    out = [[], []]

    def run():
        its = [iter(b[0].export()) for b in both]
        if turns == 'nested':
            for x in its[0]:
                out[0].append(x)
                break
            out[1].extend(its[1])
            out[0].extend(its[0])
        elif turns == 'one by one':
            out[0].extend(its[0])
            out[1].extend(its[1])
        else:
            todo = [0, 1]
            while todo:
                for k in list(todo):
                    n = len(out[k])
                    for x in its[k]:
                        out[k].append(x)
                        break
                    if len(out[k]) == n:
                        todo.remove(k)
    guarded(env, run, 'groups can be exported')
    for k in (0, 1):
        try:
            d = json.loads(''.join(out[k]))
        except ValueError:
            env.fail('the export is JSON')
            return
        check_dict(env, d, both[k][1], 'two exports at a time')
        env.check(('zusatz' in d) == (k == extra), 'extra elements are exported with their own DEP only')


CASES = [dict(name='plain', fn=plain), dict(name='merging', fn=merging, seconds=dict(quick=100, thorough=300)),
         dict(name='export', fn=export, seconds=dict(quick=60, thorough=240)), dict(name='single', fn=single), dict(name='interleaved', fn=interleaved),
         dict(name='split', fn=split, seconds=dict(quick=60, thorough=240))]
BOUNDS = ('up to 4 groups of 0-3 receipts with arbitrary amounts and signatures, 3 certificates (or none), 4 chains; streams '
          'made from lists, generators and lists of streams, extended and read in any order; two exports at a time; dictionary, compact and pretty JSON '
          'and CSV; parts of 1-5 receipts read with chunk sizes 0-2')
OUTSIDE = 'longer DEPs'
ASSUMPTIONS = ['the JSON libraries (json, ijson) deliver string contents unchanged']
