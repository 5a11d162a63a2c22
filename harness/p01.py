"""P01 Receipt format conversions are lossless."""
import base64
from librksv import receipt
from . import common as c

R = receipt.Receipt
ID = 'aZ9-.;,: \tÄ€\U0001F600=+/\'"\\'
HEX = '0123456789abcdefABCDEF'
FIELDS = ['zda', 'registerId', 'receiptId', 'dateTimeStr', 'sumAStr', 'sumBStr', 'sumCStr', 'sumDStr',
          'sumEStr', 'encTurnoverCounter', 'certSerial', 'previousChain', 'header', 'signature', 'dateTime',
          'sumA', 'sumB', 'sumC', 'sumD', 'sumE', 'signed']


def texts(zda, reg, rid, ts, sums, ctr, serial, chain, sig):
    """the four representations, written from the regulation's formats"""
    p = c.payload(zda, reg, rid, ts, sums, c.b64(ctr), serial, c.b64(chain))
    jws = c.b64u(c.HEADER.encode('utf-8')) + '.' + c.b64u(p.encode('utf-8')) + '.' + c.b64u(sig)
    qr = p + '_' + c.b64(sig)
    b32 = lambda x: base64.b32encode(x).decode('utf-8')
    ocr = '_R1-' + '_'.join([zda, reg, rid, ts] + list(sums) + [b32(ctr), serial, b32(chain), b32(sig)])
    csv = 'R1-' + ';'.join([zda, reg, rid, ts] + list(sums) + [c.b64(ctr), serial, c.b64(chain), c.b64(sig)])
    return dict(jws=jws, qr=qr, ocr=ocr, csv=csv)


READ = dict(jws=R.fromJWSString, qr=R.fromBasicCode, ocr=R.fromOCRCode, csv=R.fromCSV)


def write(r, f, p):
    if f == 'jws':
        return r.toJWSString(p)
    if f == 'qr':
        return r.toBasicCode(p)
    if f == 'ocr':
        return r.toOCRCode(p)
    return r.toCSV(p)


def same(env, a, b, label):
    for f in FIELDS:
        env.check(getattr(a, f) == getattr(b, f), label)
    for m in ('isDummy', 'isReversal', 'isNull', 'isSignedBroken'):
        env.check(getattr(a, m)() == getattr(b, m)(), label)


def circle(env, zda, reg, rid, ts, sums, ctr, serial, chain, sig):
    t = texts(zda, reg, rid, ts, sums, ctr, serial, chain, sig)
    src = env.choose('from', ['jws', 'qr', 'ocr', 'csv'])
    csv_ok = True
    for x in (reg, rid):
        csv_ok = csv_ok and ';' not in x and x.strip() == x
    if src == 'csv':
        env.assume(csv_ok)
    try:
        a, p = READ[src](t[src])
    except receipt.ReceiptException:
        env.fail('a well-formed receipt is accepted in every representation')
        return
    env.check(p == 'R1', 'the algorithm is kept')
    want = [zda, reg, rid, ts] + list(sums) + [c.b64(ctr), serial, c.b64(chain), c.HEADER, c.b64u(sig)]
    for f, w in zip(FIELDS, want):
        env.check(getattr(a, f) == w, 'the receipt has the content of the text')
    for f in ('jws', 'qr', 'ocr', 'csv'):
        if f == 'csv' and not csv_ok:
            continue
        env.check(write(a, f, p) == t[f], 'conversion produces exactly the text of the representation')
        b, q = READ[f](write(a, f, p))
        env.check(q == p, 'the algorithm is kept')
        same(env, a, b, 'reading back yields the same receipt')


BASE = dict(zda='AT1', reg='reg', rid='r1', ts='2017-03-01T12:00:00', sums=c.ZERO, ctr=bytes(range(8)),
            serial='2f5a81', chain=bytes(range(248, 256)), sig=bytes(range(64)))


def ids(env):
    d = dict(BASE)
    n = 2 if env.thorough else 1
    d['reg'] = env.str('reg', env.choose('lreg', [1, 2]), ID)
    d['rid'] = env.str('rid', n, ID)
    circle(env, **d)


def parties(env):
    d = dict(BASE)
    k = env.choose('kind', ['hex', '0x', 'negative', 'dec-suffix', 'TAX', 'UID', 'GLN'])
    if k == 'hex':
        d['zda'] = env.chars('zda', ['ABXZ', 'TZ', '123456789', '0123456789'])
        d['serial'] = env.str('serial', 4, HEX)
    elif k == '0x':
        d['serial'] = '0x' + env.str('serial', 3, HEX)
    elif k == 'negative':
        d['serial'] = '-' + env.str('serial', 3, HEX)
    elif k == 'dec-suffix':
        d['serial'] = env.str('serial', 3, c.DIG) + '-' + env.str('suffix', 2, 'abZ09')
    else:
        d['zda'] = 'AT0'
        d['serial'] = {'TAX': lambda: 'S:' + env.str('id', 9, c.DIG),
                       'UID': lambda: 'U:' + env.str('id', env.choose('n', [3, 11]), 'AUZ0159'),
                       'GLN': lambda: 'G:' + env.str('id', 13, c.DIG)}[k]()
        if env.choose('suffix?', [0, 1]):
            d['serial'] = d['serial'] + '-' + env.str('suffix', 1, 'abZ09')
    circle(env, **d)


def numbers(env):
    d = dict(BASE)
    d['ts'] = env.chars('ts', ['12', '0', '12', c.DIG, '-', '0', '123456789', '-', '012', '12345678', 'T', '01',
                               c.DIG, ':', '012345', c.DIG, ':', '012345', c.DIG])
    sh = env.choose('shapes', [('d,dd', '-d,dd', 'Ddd,dd', '-Ddddd,dd', 'd,dd'),
                               ('-Dd,dd', 'd,dd', '-d,dd', 'd,dd', 'Ddddddd,dd')])
    d['sums'] = [env.chars('s%d' % i, [dict(D='123456789', d=c.DIG).get(x, x) for x in s]) for i, s in enumerate(sh)]
    circle(env, **d)


def binary(env):
    d = dict(BASE)
    n = env.choose('ctr', [5, 6, 7, 8, 9, 10, 15, 16, 'TRA', 'STO'])
    d['ctr'] = n.encode() if isinstance(n, str) else env.bytes('ctr', n)
    d['chain'] = env.bytes('chain', 8)
    s = env.choose('sig', [64, 1, 63, 'failed'])
    d['sig'] = c.FAILED.encode('utf-8') if s == 'failed' else env.bytes('sig', s)
    circle(env, **d)


CASES = [dict(name='ids', fn=ids), dict(name='parties', fn=parties), dict(name='numbers', fn=numbers),
         dict(name='binary', fn=binary)]
BOUNDS = ('identifiers of 1-2 characters out of 19 (ASCII specials, blanks, 2, 3 and 4 byte UTF-8), serials of all '
          'kinds, all timestamps of the stated digits, amounts up to 8 integer digits, every counter of 5-10, 15, 16 '
          'bytes, every chaining value, every signature of 1, 63, 64 bytes')
OUTSIDE = ('longer identifiers; texts with non-canonical Base64 (unused bits set, superfluous padding): they are '
           'accepted but not reproduced literally; identifiers containing a semicolon or framed by blanks in CSV, '
           'which that format cannot express')
ASSUMPTIONS = []
