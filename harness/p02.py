"""P02 Only well-formed receipts are accepted."""
import base64
from librksv import receipt
from . import common as c, fmt
from .p01 import texts, READ, BASE

NAMES = ['alg', 'reg', 'rid', 'ts', 's0', 's1', 's2', 's3', 's4', 'ctr', 'serial', 'chain', 'sig']


def base(kind):
    b = lambda n: bytes(range(n))
    e = ['R1-AT1', 'reg', 'r1', '2017-03-01T12:00:00'] + list(c.ZERO)
    enc = c.b64 if kind != 'ocr' else lambda x: base64.b32encode(x).decode('utf-8')
    return e + [enc(b(8)), '2f5a81', enc(b(8)), enc(b(64))]


def join(kind, e):
    if kind == 'csv':
        return ';'.join(e)
    if kind == 'jws':
        p = '_' + '_'.join(e[:12])
        return c.b64u(c.HEADER.encode('utf-8')) + '.' + c.b64u(p.encode('utf-8')) + '.' + c.b64u(bytes(range(64)))
    return '_' + '_'.join(e)


def judge(env, kind, text):
    ok = fmt.CHECK[kind](text)
    try:
        r, p = READ[kind](text)
    except receipt.ReceiptException:
        env.check(not ok, 'well-formed receipts are accepted')
        return
    except Exception:
        env.fail('malformed receipts are rejected with a receipt error')
        return
    env.check(ok, 'malformed receipts are rejected')
    env.check(p == 'R1', 'the algorithm is the one named')


# alphabets: members of the grammar, near misses, separators, other scripts
A_ALG = 'RS19A0-_٣ \nTZa'
A_ID = 'a_; \n€-.'
A_NUM = '0129,-.+ \n٣_'
A_TS = '0123459-T:\n ٣'
A_B64 = 'AZaz09+/=-_ \n٣Q'
A_B32 = 'AZ27=01+/a8'
A_SER = '09afAFgx-_SUG:Z \n٣xX'


def element(env):
    """one element replaced by arbitrary text"""
    kind = env.choose('kind', ['qr', 'jws', 'csv', 'ocr'])
    e = base(kind)
    which = env.choose('which', [0, 1, 2, 4, 8, 9, 10, 11, 12])
    if kind == 'jws' and which == 12:
        env.assume(False)
    t = env.thorough
    A = {0: A_ALG, 1: A_ID, 2: A_ID, 4: A_NUM, 8: A_NUM, 9: A_B64, 10: A_SER, 11: A_B64, 12: A_B64}[which]
    if kind == 'ocr' and which in (9, 11, 12):
        A = A_B32
    if kind in ('qr', 'jws'):
        L = {0: [5, 6, 7] if t else [6], 1: [0, 1, 2], 2: [0, 1, 2], 4: range(0, 7 if t else 6), 8: [4, 5],
             9: range(0, 9 if t else 6), 10: range(0, 6 if t else 5), 11: [0, 4], 12: range(0, 6)}[which]
    else:
        L = {0: [6], 1: [0, 1], 2: [0, 1], 4: [3, 4], 8: [4], 9: [0, 4, 5] if kind == 'csv' else [0, 7, 8],
             10: [1, 2], 11: [0, 1, 4], 12: [0, 1, 4] if kind == 'csv' else [0, 1, 8]}[which]
    e[which] = env.str('x', env.choose('len', list(L)), A)
    judge(env, kind, join(kind, e))


def stamp(env):
    """every timestamp of the right shape, and shapes with two wrong characters"""
    kind = env.choose('kind', ['qr', 'jws', 'csv', 'ocr'])
    e = base(kind)
    how = env.choose('how', ['date', 'time', 'any2', 'short'])
    d = c.DIG
    if how == 'date':
        e[3] = env.chars('ts', [d, d, d, d, '-', d, d, '-', d, d]) + 'T12:00:00'
    elif how == 'time':
        e[3] = '2017-02-28T' + env.chars('ts', [d, d, ':', d, d, ':', d, d])
    elif how == 'any2':
        i = env.choose('at', list(range(0, 19, 1 if env.thorough else 3)))
        t = '2017-03-01T12:00:00'
        e[3] = t[:i] + env.str('x', 2, A_TS) + t[i + 2:]
    else:
        t = '2017-03-01T12:00:00'
        n = env.choose('n', [0, 10, 16, 17, 18, 19])
        e[3] = t[:n] + env.str('x', env.choose('m', [0, 1, 2]), A_TS + 'Z+')
    judge(env, kind, join(kind, e))


def sizes(env):
    """counters and chaining values of every size, markers"""
    kind = env.choose('kind', ['qr', 'jws', 'ocr'])
    e = base(kind)
    enc = c.b64 if kind != 'ocr' else lambda x: base64.b32encode(x).decode('utf-8')
    what = env.choose('what', ['ctr', 'chain'])
    n = env.choose('n', list(range(0, 20)))
    x = enc(env.bytes('raw', n))
    if env.choose('spoil', [0, 1]) and n > 0:
        # one character replaced, unused bits and misplaced padding included
        i = env.choose('at', [0, len(x) - 1, len(x) - 2, len(x) - 4])
        x = x[:i] + env.str('x', 1, A_B64 + 'BCDEFGHIJKLMNOP234567' if kind != 'ocr' else A_B32 + 'BCDEFGH') + x[i + 1:]
    e[9 if what == 'ctr' else 11] = x
    judge(env, kind, join(kind, e))


def markers(env):
    """3 byte counters: training and cancellation markers only"""
    kind = env.choose('kind', ['qr', 'jws', 'csv', 'ocr'])
    e = base(kind)
    if kind == 'ocr':
        e[9] = env.chars('x', ['KJ', 'RNS', 'JK', 'E', fmt.B32, '=A', '=', '='])
    else:
        e[9] = env.chars('x', ['VUT', 'F1E', 'JRK', 'BPQ=A'])
    judge(env, kind, join(kind, e))


def provider(env):
    """provider identifier against kind of certificate serial or key identifier"""
    kind = env.choose('kind', ['qr', 'jws', 'csv', 'ocr'] if env.thorough else ['qr', 'ocr'])
    e = base(kind)
    e[0] = 'R1-' + env.chars('zda', ['AB', 'TU', '012', ] + ([c.DIG] if env.choose('l', [0, 1]) else []))
    k = env.choose('serial', ['hex', '0x', 'neg', 'TAX', 'UID', 'GLN'])
    if k == 'hex':
        s = env.str('s', 3, HEXISH)
    elif k == '0x':
        s = '0' + env.str('s', 3, 'xX0af-')
    elif k == 'neg':
        s = env.str('s', 3, '-0fg')
    elif k == 'TAX':
        s = env.chars('s', ['SU', ':;', c.DIG, '0123456789a']) + '1234567' + env.str('t', env.choose('lt', [0, 1]), '0a-')
    elif k == 'UID':
        n = env.choose('n', [0, 1, 2, 12, 13, 14, 15])
        s = 'U:' + ('ATU1234567890123'[:n - 2] + env.str('s', 2, 'A1a-Äß') if n >= 2 else env.str('s', n, 'A1a-Äß'))
    else:
        s = env.chars('s', ['G', ':', '0123456789A']) + '12345678901' + env.str('t', env.choose('lt', [0, 1, 2]), '0a-٣')
    if env.choose('suffix', [0, 1]):
        s = s + '-' + env.str('u', env.choose('lu', [0, 1, 2]), 'a0- Ä')
    e[10] = s
    judge(env, kind, join(kind, e))


HEXISH = '019afAFgG_-'


def structure(env):
    """elements missing, doubled or merged; separators replaced; text around"""
    kind = env.choose('kind', ['qr', 'ocr', 'csv', 'jws'])
    e = base(kind)
    how = env.choose('how', ['drop', 'double', 'around', 'glue'])
    i = env.choose('i', list(range(13 if kind != 'jws' else 12)))
    if how == 'drop':
        e = e[:i] + e[i + 1:]
    elif how == 'double':
        e = e[:i] + [e[i]] + e[i:]
    elif how == 'glue' and i < 11:
        e[i] = e[i] + env.str('x', 1, '_;-. \n|') + e[i + 1]
        del e[i + 1]
    t = join(kind, e)
    if how == 'around':
        if i > 2:
            env.assume(False)
        if i == 0:
            t = env.str('x', 1, '_;-. \n=a') + t
        elif i == 1:
            t = t + env.str('x', 1, '_;-. \n=a')
        elif kind == 'qr' or kind == 'ocr':
            t = t[1:]
    judge(env, kind, t)


def rawjws(env):
    """segments of the JWS text replaced by arbitrary characters"""
    t = join('jws', base('jws'))
    h, p, s = t.split('.')
    how = env.choose('how', ['header', 'headertext', 'payload', 'sig', 'dots', 'alg'])
    A = 'AJ09Q-_=+/. \n٣'
    if how == 'header':
        i = env.choose('at', [0, len(h) - 2])
        h = h[:i] + env.str('x', 2, A) + h[i + 2:]
    elif how == 'headertext':
        x = env.str('x', env.choose('n', [1, 2]), '{"}: \na')
        h = c.b64u((env.choose('w', ['{"alg":"ES256"', '{"alg": "ES256"}', '{"alg":"none"}', '']) + x).encode('utf-8'))
    elif how == 'payload':
        i = env.choose('at', [0, 1, len(p) - 2, len(p) - 1])
        p = p[:i] + env.str('x', 1, A) + p[i + 1:]
    elif how == 'sig':
        s = env.str('x', env.choose('n', [0, 1, 2, 3]), A)
    elif how == 'alg':
        e = base('jws')
        e[0] = env.choose('a', ['R2-AT1', 'R10-AT1', 'R1-AT1-', 'R1', 'AT1-R1', 'r1-AT1', 'R01-AT1'])
        t = join('jws', e)
        h, p, s = t.split('.')
    t = h + '.' + p + '.' + s
    if how == 'dots':
        t = env.choose('t', [h + '.' + p, t + '.', '.' + t, h + '..' + s, '.' + p + '.' + s])
    judge(env, 'jws', t)


CASES = [dict(name='element', fn=element, seconds=dict(quick=60, thorough=300)), dict(name='stamp', fn=stamp),
         dict(name='sizes', fn=sizes), dict(name='markers', fn=markers), dict(name='provider', fn=provider, seconds=dict(quick=60, thorough=240)),
         dict(name='structure', fn=structure), dict(name='rawjws', fn=rawjws)]
BOUNDS = ('every single element replaced by arbitrary text of up to 4-8 characters out of 8-20 (grammar members, near '
          'misses, separators, blanks, line breaks, non-ASCII digits and letters); every timestamp of the right shape; '
          'every counter and chaining value of 0..19 bytes with one arbitrary character; providers combined with all '
          'kinds of serials; elements missing, doubled, joined')
OUTSIDE = 'several elements malformed in unrelated ways at once; amounts of more than 6 characters (see P23)'
ASSUMPTIONS = ['Base64 and Base32 texts are judged by the standard decoder with a checked alphabet: unused bits and superfluous padding are tolerated',
               'in CSV an underscore separates elements like a semicolon does']
