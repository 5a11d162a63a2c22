"""P31 The receipt checking tool names exactly the receipts that do not verify."""
import json
from librksv import url_receipt_helpers as UH
from . import common as c, tool
from .p04 import text
from .p20 import _Requests, digest8

tool.load('verify_receipt')
KINDS = ['good', 'unsigned', 'otherkey', 'changed', 'malformed', 'badalg', 'empty']


def receipt(env, i, kind, fmt):
    """(line, verifies)"""
    pl = c.payload('AT1', 'reg', 'r%d' % i, c.TS % i, ('0,00', env.str('a%d' % i, 1, '0159') + ',00', '-2,00', '0,00', '3,00'),
                   c.b64(bytes(range(8))), '2f5a81', c.b64(bytes(range(8, 16))))
    if kind == 'malformed':
        return 'R1-x_', False
    if kind == 'empty':
        return '', False
    if kind == 'badalg':
        pl = '_R9' + pl[3:]
    j = c.sign_jws(pl, None if kind == 'unsigned' else c.PRIV['B' if kind == 'otherkey' else 'A'])
    ok = kind == 'good'
    if kind == 'changed':
        # one digit of another amount
        at = pl.index('-2,00') + 1
        d = env.str('c%d' % i, 1, '0123456789')
        h, p, s = j.split('.')
        j = h + '.' + c.b64u((pl[:at] + d + pl[at + 1:]).encode('utf-8')) + '.' + s
        ok = d == '2'
    return text(fmt, j), ok


def store(*names):
    return json.dumps(c.key_store(*names).writeStoreToJson(None))


def again(env):
    """receipts that come again, as they were or with parts of each other"""
    fmt = env.choose('fmt', ['jws', 'qr', 'ocr', 'csv'])
    n = env.choose('n', [2, 3])
    a, _ = receipt(env, 0, 'good', 'jws')
    b, _ = receipt(env, 1, 'good', 'jws')
    pa, pb = a.split('.'), b.split('.')
    out = []
    for i in range(n):
        k = env.choose('k%d' % i, ['a', 'b', 'ab', 'ba', 'unsigned'])
        p = pa if k[0] != 'b' else pb
        s = pb if k == 'ab' else pa if k == 'ba' else p
        j = a if k == 'a' else b if k == 'b' else p[0] + '.' + p[1] + '.' + (c.FAILED_SIG if k == 'unsigned' else s[2])
        out.append((text(fmt, j), k in ('a', 'b')))
    t = ''
    for l, ok in out:
        t = t + l + '\n'
    r = tool.run('verify_receipt', [fmt, 'ks.json'], {'ks.json': store('LEAF')}, t)
    report(env, r, [ok for l, ok in out])


def report(env, r, verdicts):
    """the failed lines and the summary"""
    env.check(r.status == 0, 'every input is judged')
    lines = r.out.split('\n')
    while lines and len(lines[len(lines) - 1]) == 0:
        lines.pop()
    n = len(verdicts)
    bad = [i for i in range(n) if not verdicts[i]]
    env.check(len(lines) > 0 and lines[len(lines) - 1].startswith('%d of %d receipts' % (n - len(bad), n)), 'the summary counts the receipts that verify')
    env.check(len(lines) == len(bad) + 1, 'one message for each receipt that does not verify')
    for i, l in zip(bad, lines):
        env.check(l.startswith('Line %3d: ' % i), 'the message names the line')


def lines(env):
    fmt = env.choose('fmt', ['jws', 'qr', 'ocr', 'csv'])
    n = env.choose('n', [0, 1, 2, 3] if env.thorough else [0, 1, 2])
    out = [receipt(env, i, env.choose('kind%d' % i, KINDS if n < 3 else KINDS[:4]), fmt) for i in range(n)]
    end = env.choose('end', ['\n', '\r\n'] if n else ['\n'])
    t = ''
    for l, ok in out:
        t = t + l + end
    certs = env.choose('store', [('LEAF', 'LEAFB'), ('LEAFB',)])
    r = tool.run('verify_receipt', [fmt, 'ks.json'], {'ks.json': store(*certs)}, t)
    report(env, r, [ok and 'LEAF' in certs for l, ok in out])


def single(env):
    """one receipt on the command line"""
    fmt = env.choose('fmt', ['jws', 'qr', 'ocr', 'csv', 'url', 'xyz'])
    kind = env.choose('kind', KINDS[:4] if fmt == 'url' else KINDS)
    l, ok = receipt(env, 0, kind, 'qr' if fmt == 'url' else 'qr' if fmt == 'xyz' else fmt)
    urls = []
    p = [(UH, 'requests', _Requests(urls, l, False))]
    a = l
    if fmt == 'url':
        h = env.choose('hash', ['own', 'other', 'none'])
        a = 'http://x.y/' + {'own': digest8(l), 'other': 'AAAAAAAAAAA', 'none': ''}[h]
        ok = ok and h == 'own'
    r = tool.run('verify_receipt', [fmt, 'ks.json', a + env.choose('end', ['', '\n'])], {'ks.json': store('LEAF')}, 'junk\n', patch=p)
    if fmt == 'xyz':
        env.check('receipts verified' not in r.out, 'nothing is said about receipts of unknown format')
        return
    report(env, r, [ok])


CASES = [dict(name='lines', fn=lines), dict(name='again', fn=again), dict(name='single', fn=single)]
BOUNDS = ('0-2 receipts (0-3) on standard input or one on the command line, in every format, each properly signed, unsigned, signed with '
          'another key, changed in an arbitrary digit, malformed, of unknown algorithm or empty; two or three receipts repeated, unsigned or with the signature of another; key stores with and without the key')
OUTSIDE = 'failing downloads and malformed key stores (they end the tool)'
ASSUMPTIONS = ['ideal signatures', 'different texts have different hashes']
