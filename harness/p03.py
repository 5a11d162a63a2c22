"""P03 Hostile receipt text never causes an unexpected error."""
from librksv import receipt, verify_receipt, key_store
from . import common as c, fmt
from .p01 import READ
from .p02 import base, join

HOST = '_-.;=,: 0R\n\ud800\udfffäÄ\u0663\u2460\U0001F600\x00'
VERIFY = dict(jws='verifyJWS', qr='verifyBasicCode', ocr='verifyOCRCode', csv='verifyCSV')


def attempt(env, kind, t):
    try:
        r, p = READ[kind](t)
    except receipt.ReceiptException as e:
        try:
            str(e)
        except Exception:
            env.fail('errors can be shown')
        env.reach('rejected')
        return None
    except Exception:
        env.fail('only receipt errors escape')
        return None
    env.reach('accepted')
    for f in (r.toJWSString, r.toBasicCode, r.toOCRCode, r.toCSV):
        try:
            f(p)
        except Exception:
            env.fail('an accepted receipt can be written in every representation')
    return r


def short(env):
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'])
    t = env.str('t', env.choose('n', list(range(0, 6 if env.thorough else 5))), HOST)
    attempt(env, kind, t)


def hole(env):
    """an element replaced by hostile text"""
    kind = env.choose('kind', ['qr', 'jws', 'csv', 'ocr'])
    e = base(kind)
    i = env.choose('i', list(range(12 if kind == 'jws' else 13)))
    where = env.choose('where', ['all', 'front', 'middle', 'end'])
    n = env.choose('n', [1, 2] if not env.thorough else [1, 2, 3])
    x = env.str('x', n, HOST)
    s = e[i]
    m = len(s) // 2
    e[i] = {'all': x, 'front': x + s, 'middle': s[:m] + x + s[m:], 'end': s + x}[where]
    p = '_'.join(e)
    if kind == 'jws':
        # a payload with lone surrogates has no UTF-8 form
        env.assume(fmt.encodable(p))
    attempt(env, kind, join(kind, e))


WIDE = '0129AFRSTUZaz-,:.;=+/_ \n\ud800\xe4\u0663'


def alter(env):
    """one character of a valid text replaced, added or removed"""
    kind = env.choose('kind', ['qr', 'jws', 'csv', 'ocr'])
    e = base(kind)
    i = env.choose('i', list(range(12 if kind == 'jws' else 13)))
    s = e[i]
    n = len(s)
    at = [k for k in range(n + 1) if n <= 20 or k < 3 or k > n - 3]
    pos = env.choose('pos', at)
    how = env.choose('how', ['replace', 'add', 'remove'])
    x = '' if how == 'remove' else env.str('x', 1, WIDE)
    if pos == n and how != 'add':
        env.assume(False)
    e[i] = s[:pos] + x + s[pos + (how != 'add'):]
    if kind == 'jws':
        env.assume(fmt.encodable('_'.join(e)))
    attempt(env, kind, join(kind, e))


def codes(env):
    """Base64 / Base32 elements with arbitrary characters at the ends"""
    kind = env.choose('kind', ['qr', 'ocr', 'csv'])
    e = base(kind)
    i = env.choose('i', [9, 11, 12])
    k = env.choose('keep', [0, 1, 2, 3, 4, 5, 6, 7, 8])
    e[i] = e[i][:k] + env.str('x', env.choose('n', [0, 1, 2, 3]), 'A7=_+/1a8')
    attempt(env, kind, join(kind, e))


def payload(env):
    """JWS with arbitrary bytes (no UTF-8 required) inside header or payload"""
    p = ('_' + '_'.join(base('jws')[:12])).encode('utf-8')
    h = c.HEADER.encode('utf-8')
    n = env.choose('n', [1, 2, 3])
    x = env.bytes('x', n, sorted(b'_-0R{"\x00\x7f\x80\xa0\xbf\xc0\xc3\xe0\xed\xef\xf0\xf4\xff'))
    where = env.choose('where', ['header', 'front', 'reg', 'ts', 'end', 'cut'])
    if where == 'header':
        h = h[:2] + x + h[2 + n:]
    elif where == 'front':
        p = x + p
    elif where == 'reg':
        p = p[:8] + x + p[8:]
    elif where == 'ts':
        p = p[:20] + x + p[20 + n:]
    elif where == 'end':
        p = p + x
    else:
        p = p[:5] + x
    t = c.b64u(h) + '.' + c.b64u(p) + '.' + c.b64u(bytes(range(64)))
    attempt(env, 'jws', t)


def segments(env):
    """JWS text with arbitrary characters and cuts"""
    t = join('jws', base('jws'))
    d = [i for i in range(len(t)) if t[i] == '.']
    at = env.choose('at', [0, d[0] - 1, d[0], d[0] + 1, d[1] - 1, d[1], d[1] + 1, len(t) - 1, len(t)])
    x = env.str('x', env.choose('n', [0, 1, 2]), HOST)
    attempt(env, 'jws', t[:at] + x + t[min(len(t), at + env.choose('cut', [0, 1, 2])):])


def types(env):
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'])
    t = env.choose('t', [None, 5, b'R1', [], {}, True, 1.5, ['a', 'b'], bytes(3)])
    attempt(env, kind, t)


def store():
    ks = c.key_store('LEAF', 'LEAFB', 'RSAROOT')
    ks.putKey('S:123456789', c.PUB['B'], None)
    return ks


KS = store()


def verify(env):
    """hostile text against a key store with EC and RSA certificates"""
    kind = env.choose('kind', ['jws', 'qr', 'csv', 'ocr'])
    e = base(kind)
    how = env.choose('how', ['serial', 'key', 'sig', 'content', 'signed', 'cert'])
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(KS)
    A = '019afFS:-Ux\u0663'
    sig = None
    if how == 'serial':
        e[10] = env.str('x', env.choose('n', [1, 2, 3]), A)
    elif how == 'key':
        e[0] = 'R1-AT0'
        e[10] = env.choose('pre', ['S:12345678', 'U:ATU', 'G:123456789012']) + env.str('x', env.choose('n', [0, 1, 2]), A)
    elif how == 'sig':
        e[10] = env.choose('serial', ['2f5a81', '4660', 'cc02', '52226', '99999999', '-2f5a81', '0x2F5A81'])
        n = env.choose('n', [0, 1, 2, 3, 31, 63, 64, 65, 96])
        sig = env.bytes('sig', n)
    elif how == 'content':
        i = env.choose('i', [1, 2, 3, 4, 9])
        e[i] = env.str('x', env.choose('n', [1, 2]), HOST)
        env.assume(fmt.encodable('_'.join(e)))
    elif how == 'cert':
        rv = verify_receipt.ReceiptVerifier.fromCert(c.CERT[env.choose('cert', ['LEAF', 'RSAROOT'])])
        e[10] = env.choose('serial', ['2f5a81', 'cc02', 'S:123456789', '0'])
        if e[10][0] == 'S':
            e[0] = 'R1-AT0'
        sig = env.bytes('sig', env.choose('n', [0, 1, 63, 64]))
    else:
        sig = c.FAILED.encode('utf-8')
        e[4] = env.chars('x', ['01', ',', '0', '05'])
    if kind == 'jws':
        t = join('jws', e)
        if sig is not None:
            t = t[:t.rindex('.') + 1] + c.b64u(sig)
    else:
        if sig is not None:
            import base64
            e[12] = c.b64(sig) if kind != 'ocr' else base64.b32encode(sig).decode('utf-8')
        t = join(kind, e)
    try:
        getattr(rv, VERIFY[kind])(t)
        env.reach('verified')
    except receipt.ReceiptException:
        env.reach('not verified')
    except Exception:
        env.fail('verification fails with receipt errors only')
    # nothing in here was signed with a registered key
    else:
        env.fail('unsigned text verifies')


CASES = [dict(name='short', fn=short, seconds=dict(quick=30, thorough=200)),
         dict(name='hole', fn=hole, seconds=dict(quick=70, thorough=300)), dict(name='alter', fn=alter, seconds=dict(quick=60, thorough=200)),
         dict(name='codes', fn=codes),
         dict(name='payload', fn=payload), dict(name='segments', fn=segments), dict(name='types', fn=types),
         dict(name='verify', fn=verify)]
BOUNDS = ('texts of up to 4 (thorough 5) hostile characters out of 17 (separators, padding, blanks, line breaks, NUL, '
          'lone surrogates, non-ASCII letters and digits, astral characters); every element of a valid text replaced, '
          'prefixed, interrupted or followed by up to 2 (3) of them; arbitrary bytes in JWS header and payload; '
          'one of 25 characters put at, added at or taken from every position of every element; signatures of 0..96 arbitrary bytes against EC and RSA keys')
OUTSIDE = 'texts of more than a few hundred characters, numbers beyond the limits of the interpreter'
ASSUMPTIONS = ['a signature that nobody made with a key never verifies under it (ideal signatures)']
