"""P20 URL hashes identify the receipt they were made for."""
import base64, hashlib
from librksv import receipt, verify_receipt, algorithms, url_receipt_helpers as UH
from . import common as c
from .p04 import text

VR = verify_receipt
R1 = algorithms.ALGORITHMS['R1']
B64U = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def jws(rid='r1', sums=('0,00', '1,00', '-2,00', '0,00', '3,00'), signed='A', reg='reg', ctr=None):
    return c.sign_jws(c.payload('AT1', reg, rid, '2017-03-01T12:00:00', sums, ctr or c.b64(bytes(range(8))), '2f5a81',
                                c.b64(bytes(range(8, 16)))), None if signed is None else c.PRIV[signed])


def digest8(qr):
    """the first 8 bytes of the hash of the QR text, URL-safe, without padding"""
    return base64.urlsafe_b64encode(hashlib.sha256(qr.encode('utf-8')).digest()[0:8]).decode('ascii')[:11]


def accepted(env, rec, h, label):
    try:
        VR.verifyURLHash(rec, R1, h)
        return True
    except VR.InvalidURLHashException:
        return False
    except Exception:
        env.fail(label)


def presented(env):
    """any other hash is refused"""
    i = env.choose('receipt', list(range(24 if env.thorough else 12)))
    # receipts without signature: the text and therefore the hash never change
    j = jws('r%d' % i, signed=None)
    rec, alg = receipt.Receipt.fromJWSString(j)
    want = digest8(text('qr', j))
    how = env.choose('how', ['one', 'two', 'pad', 'short', 'long', 'none', 'empty', 'other', 'lower', 'std', 'free'])
    if how in ('one', 'two'):
        k = env.choose('pos', list(range(11 if how == 'one' else 10)))
        n = 1 if how == 'one' else 2
        h = want[:k] + env.str('x', n, B64U + '=+/ \xe4') + want[k + n:]
    elif how == 'short':
        h = want[:env.choose('len', [1, 5, 10])]
    elif how == 'long':
        h = want + env.str('x', env.choose('n', [1, 2]), B64U + '= \n')
    elif how == 'free':
        h = env.str('x', env.choose('n', [0, 1, 2, 11, 12]), B64U)
    else:
        h = dict(pad=want + '=', none=None, empty='', other=digest8(text('qr', jws('x', signed=None))), lower=want.lower(),
                 std=want.replace('-', '+').replace('_', '/') + '=')[how]
    good = h is not None and h == want
    env.check(accepted(env, rec, h, 'URL hashes are checked') == good, 'a hash is accepted exactly if it is the one of the receipt')
    try:
        env.check(rec.toURLHash('R1') == want, 'the hash of a receipt is made from its QR code')
    except Exception:
        env.fail('the hash of a receipt can be made')


def content(env):
    """the hash made for a receipt passes, and does not pass for receipts with other content"""
    i = env.choose('i', ['zda', 'reg', 'rid', 'sum', 'ctr', 'serial', 'chain', 'sig'])
    f = ['AT1', 'reg', 'r1', '2017-03-01T12:00:00', '0,00', '1,00', '-2,00', '0,00', '3,00', c.b64(bytes(range(8))), '2f5a81',
         c.b64(bytes(range(8, 16)))]

    def make(n):
        g = list(f)
        sig = b'\x01' * 64
        if i == 'zda':
            g[0] = 'AT' + env.str(n, 1, '12345')
        elif i in ('reg', 'rid'):
            g[1 if i == 'reg' else 2] = 'r' + env.str(n, env.choose(n + 'len', [1, 2]), 'aB1-\xe4')
        elif i == 'sum':
            g[env.choose('k', [4, 5, 6, 7, 8])] = env.str(n, 1, '0123456789') + ',00'
        elif i == 'ctr':
            g[9] = base64.b64encode(env.bytes(n, 8)).decode('ascii')
        elif i == 'serial':
            g[10] = 'a' + env.str(n, 2, '0123456789abcdef')
        elif i == 'chain':
            g[11] = base64.b64encode(env.bytes(n, 8)).decode('ascii')
        else:
            sig = env.bytes(n, 64)
        j = c.b64u(c.HEADER.encode()) + '.' + base64.urlsafe_b64encode(('_R1-' + '_'.join(g)).encode('utf-8')).decode('utf-8').replace('=', '') + \
            '.' + base64.urlsafe_b64encode(sig).replace(b'=', b'').decode('ascii')
        return j
    a, b = make('a'), make('b')
    try:
        ra, rb = receipt.Receipt.fromJWSString(a)[0], receipt.Receipt.fromJWSString(b)[0]
        h = ra.toURLHash('R1')
    except Exception:
        env.fail('the hash of a receipt can be made')
        return
    env.check(len(h) == 11, 'hashes have 11 characters')
    for ch in h:
        env.check(ch in B64U, 'hashes are URL-safe')
    env.check(accepted(env, ra, h, 'URL hashes are checked'), 'the hash of a receipt passes')
    env.check(accepted(env, rb, h, 'URL hashes are checked') == (a == b), 'the hash of another receipt does not pass')


def token(url):
    """the last run of exactly 11 token characters"""
    got, run = None, ''
    for ch in url + '/':
        if ch in B64U:
            run = run + ch
        else:
            if len(run) == 11:
                got = run
            run = ''
    return got


T11 = 'AbCdEfGh-_1'
URLS = [
    # (parts); an int: symbolic characters
    (2, T11, 2), ('https://x.y/', T11[:9], 3), ('https://x.y/', 2, T11[:8], 2), (1, T11[:10], 2, T11[:10], 1),
    ('http://x/', T11, '/', 1, T11[:10], 1), ('http://x/?h=', T11, 1, 'a', 2), ('abcdefghij', 3, 'abcdefghij'), (1, T11[:5], 1, T11[:5], 1),
    (T11, '/', T11.lower(), 2), (3,), ('/', T11[:10], 1, '/', T11, T11, '/', 1), (0,), ('http://x/', T11, '\n', 1), (T11, '\xe4', 2),
]


def url(env):
    """where the hash is in a URL"""
    u = ''
    sharp = 0
    for k, p in enumerate(env.choose('url', URLS)):
        u = u + (env.str('u%d' % k, p, 'aZ0_-/.=?\xe4\n') if isinstance(p, int) else p)
    frag = env.choose('fragment', [None, 0, 1, 2, 11])
    if frag is not None:
        f = env.str('f', frag, 'aZ0_-/=') if frag < 11 else T11
        u = u + '#' + f
    try:
        got = UH.getURLHashFromURL(u)
    except Exception:
        env.fail('any URL can be looked at')
        return
    if frag is not None:
        env.check(got is not None and got == f, 'the fragment is the hash')
        return
    want = token(u)
    if want is None:
        env.check(got is None, 'no hash is found where there is none')
    else:
        env.check(got is not None and got == want, 'the last stand-alone token of 11 characters is the hash')


class _Stub(BaseException):
    pass


class _Response(object):
    def __init__(self, code, fail):
        self._code = code
        self._fail = fail

    def raise_for_status(self):
        if self._fail:
            raise IOError('404')

    def json(self):
        return {'code': self._code}

    def __getattr__(self, name):
        raise _Stub(name)


class _Requests(object):
    def __init__(self, urls, code, fail):
        self._urls, self._code, self._fail = urls, code, fail

    def get(self, url, *a, **k):
        self._urls.append(url)
        return _Response(self._code, self._fail)

    def __getattr__(self, name):
        raise _Stub(name)


def fetch(env):
    """download and verification together"""
    signed = env.choose('signed', ['A', 'B', None])
    j = jws('r7', signed=signed)
    qr = text('qr', j)
    good = digest8(qr)
    how = env.choose('how', ['own', 'own#', 'changed', 'changed#', 'none', 'empty#', 'both'])
    k = env.choose('pos', [0, 5, 10])
    other = good[:k] + env.str('x', 1, B64U) + good[k + 1:]
    u = 'http://x.y/' + dict(own=good, changed=other, none='', both=good).get(how, '')
    if how.endswith('#'):
        u = u + '#' + {'own#': good, 'changed#': other, 'empty#': ''}[how]
    if how == 'both':
        u = u + '#' + other
    h = dict(own=good, changed=other, none=None, both=other).get(how, None)
    if how.endswith('#'):
        h = {'own#': good, 'changed#': other, 'empty#': ''}[how]
    fail = env.choose('fail', [False, True])
    urls = []
    rv = VR.ReceiptVerifier.fromKeyStore(c.key_store('LEAF'))
    saved = UH.requests
    UH.requests = _Requests(urls, qr, fail)
    try:
        UH.getAndVerifyReceiptURL(rv, u)
        res = 'ok'
    except VR.InvalidURLHashException:
        res = 'hash'
    except receipt.ReceiptException:
        res = 'receipt'
    except IOError:
        res = 'io'
    except Exception:
        res = 'other'
    finally:
        UH.requests = saved
    env.check(len(urls) == 1 and urls[0] == u, 'the given URL is downloaded')
    if fail:
        env.check(res == 'io', 'a failed download is not a verified receipt')
    elif signed == 'B':
        env.check(res == 'receipt', 'a badly signed receipt does not verify')
    elif signed is None:
        env.check(res in ('receipt', 'hash'), 'a receipt without signature does not verify')
    elif h is None:
        env.check(res == 'hash', 'a URL without hash does not verify')
    else:
        env.check(res == ('ok' if h == good else 'hash'), 'the receipt verifies exactly if the URL contains its hash')


CASES = [dict(name='presented', fn=presented), dict(name='content', fn=content), dict(name='url', fn=url, seconds=dict(quick=120, thorough=240)),
         dict(name='fetch', fn=fetch)]
BOUNDS = ('12 receipts (24) with real digests against any change of one or two characters, any text of 0-2, 11 and 12 characters; receipts with '
          'one arbitrary element each; 14 URL shapes of up to 60 characters with up to 6 arbitrary ones; fragments of 0-2 and 11 characters')
OUTSIDE = 'URLs with more than one "#"; the download itself'
ASSUMPTIONS = ['different texts have different hashes (in case content)']
