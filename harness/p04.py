"""P04 A receipt verifies only with a signature by the right key."""
import base64
from librksv import receipt, verify_receipt, key_store
from . import common as c, fmt

VR = verify_receipt
HEX = '0123456789abcdefABCDEF'
VERIFY = dict(jws='verifyJWS', qr='verifyBasicCode', ocr='verifyOCRCode', csv='verifyCSV')


def text(kind, jws):
    """representation of a signed receipt, written from the formats"""
    if kind == 'jws':
        return jws
    h, p, s = jws.split('.')
    pl = base64.urlsafe_b64decode((p + '=' * (-len(p) % 4)).encode('ascii')).decode('utf-8')
    sig = base64.urlsafe_b64decode((s + '=' * (-len(s) % 4)).encode('ascii'))
    e = pl.split('_')[1:]
    if kind == 'ocr':
        b32 = lambda b: base64.b32encode(base64.b64decode(b.encode('ascii'))).decode('ascii')
        e[9], e[11] = b32(e[9]), b32(e[11])
        return '_' + '_'.join(e + [base64.b32encode(sig).decode('ascii')])
    e = e + [c.b64(sig)]
    return '_' + '_'.join(e) if kind == 'qr' else ';'.join(e)


def fields(zda='AT1', serial='2f5a81'):
    return [zda, 'reg', 'r1', '2017-03-01T12:00:00', '0,00', '1,00', '-2,00', '0,00', '3,00',
            c.b64(bytes(range(8))), serial, c.b64(bytes(range(8, 16)))]


def typed(env, f):
    """receipts of every type, with and without turnover"""
    k = env.choose('type', ['N', 'T', 'S', 'zero'])
    if k == 'zero':
        f[4:9] = ['0,00'] * 5
    elif k != 'N':
        f[9] = c.TRA if k == 'T' else c.STO
    return f


def pay(f):
    return '_R1-' + '_'.join(f)


def judge(env, rv, kind, t, expect):
    """expect: 'ok' or the exception class"""
    try:
        r, alg = getattr(rv, VERIFY[kind])(t)
    except receipt.ReceiptException as e:
        env.check(expect != 'ok', 'a receipt signed with the right key verifies')
        if expect != 'any':
            env.check(type(e) is expect, 'the failure is reported as what it is')
        return
    except Exception:
        env.fail('verification fails with receipt errors only')
        return
    env.check(expect == 'ok', 'only receipts signed with the right key verify')


def content(env):
    """one element differs (possibly) from what was signed"""
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'])
    f = fields()
    i = env.choose('i', list(range(12)))
    g = list(f)
    if i == 0:
        g[0] = env.chars('x', ['AB', 'TU', '123'])
    elif i in (1, 2):
        g[i] = env.str('x', env.choose('n', [2, 3]) if i == 1 else 2, 'regR1 ' if kind != 'csv' else 'regR1')
    elif i == 3:
        g[3] = '201' + env.chars('x', ['78', '-', '0', '34', '-', '0', '12', 'T', '1', '23', ':', '0', '05', ':', '0', '09'])
    elif i in (4, 5, 6, 7, 8):
        g[i] = f[i][:-4] + env.chars('x', ['012', ',', '01', '05'])
    elif i == 9:
        g[9] = c.b64(env.bytes('x', env.choose('n', [8, 5])))
    elif i == 10:
        g[10] = env.choose('pre', ['', '0', '0x', '-']) + env.chars('x', ['23', 'f', 'Fef', 'aA', 'fF58', '01'])[0:0] + \
            env.chars('y', ['2', 'fF', '5', 'aA', '8', '1'])
    else:
        g[11] = c.b64(env.bytes('x', 8))
    # the signature belongs to f; the text says g
    s = c.sign_jws(pay(f), c.PRIV['A']).rsplit('.', 1)[1]
    t = c.b64u(c.HEADER.encode('ascii')) + '.' + c.b64u(pay(g).encode('utf-8')) + '.' + s
    ks = c.key_store('LEAF', 'LEAFB')
    judge(env, VR.ReceiptVerifier.fromKeyStore(ks), kind, text(kind, t),
          'ok' if g == f else VR.InvalidSignatureException)


def opened(env):
    """which key an open system receipt is checked with"""
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'] if env.thorough else ['jws', 'qr'])
    names = env.choose('store', [('LEAF', 'LEAFB', 'LEAFC'), ('LEAFB',), ('LEAFC',), ('LEAF', 'LEAFC')])
    known = {'LEAF': (0x2f5a81, 'A'), 'LEAFB': (0x1234, 'B'), 'LEAFC': (0x4660, 'C')}
    form = env.choose('form', ['4', '0x4', '-4', '06', 'A6', 'dec'])
    if form == '4':
        ser = env.str('s', 4, '0123467')
    elif form == '0x4':
        ser = env.chars('s', ['0', 'xX']) + env.chars('t', ['14', '26', '36', '04'])
    elif form == '-4':
        ser = '-' + env.chars('t', ['14', '26', '36', '04'])
    elif form == '06':
        ser = '00' + env.chars('t', ['14', '26', '36', '04'])
    elif form == 'A6':
        ser = env.chars('t', ['2', 'fF', '5', 'aAbB', '8', '12'])
    else:
        ser = env.chars('t', ['3', '1', '0', '3', '3', '6', '12'])       # 0x2f5a81 == 3103361
    signer = env.choose('signer', ['A', 'B', 'C'])
    right = None
    body = ser[1:] if ser[0] == '-' else ser
    digits = body[2:] if body[0:2] in ('0x', '0X') else body
    for n in names:
        if int(digits, 16) == known[n][0]:
            right = known[n][1]
    if right is None and fmt.all_in(body, c.DIG):
        for n in names:
            if int(digits, 10) == known[n][0]:
                right = known[n][1]
    t = c.sign_jws(pay(typed(env, fields(serial=ser))), c.PRIV[signer])
    judge(env, VR.ReceiptVerifier.fromKeyStore(c.key_store(*names)), kind, text(kind, t),
          VR.NoPublicKeyException if right is None else
          'ok' if right == signer else VR.InvalidSignatureException)


def closed(env):
    """closed systems: the key identifier named in the receipt, literally"""
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'] if env.thorough else ['qr', 'ocr'])
    pre = env.choose('pre', ['S:12345678', 'U:ATU1234', 'G:123456789012'])
    ids = {pre + '1': 'A', pre + '2': 'B', pre + '1-k2': 'C', '2f5a81': 'A'}
    ks = key_store.KeyStore()
    for k in sorted(ids):
        ks.putKey(k, c.PUB[ids[k]], None)
    ser = pre + env.str('x', 1, '0123') + (('-' + env.chars('y', ['kK', '23'])) if env.choose('suffix', [0, 1]) else '')
    signer = env.choose('signer', ['A', 'B', 'C'])
    right = None
    for k in sorted(ids):
        if ser == k:
            right = ids[k]
    t = c.sign_jws(pay(typed(env, fields('AT0', ser))), c.PRIV[signer])
    judge(env, VR.ReceiptVerifier.fromKeyStore(ks), kind, text(kind, t),
          VR.NoPublicKeyException if right is None else
          'ok' if right == signer else VR.InvalidSignatureException)


def group(env):
    """group certificate: fixed key; in open systems its serial must be named"""
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'] if env.thorough else ['jws', 'csv'])
    cert, num, key = env.choose('cert', [('LEAF', 0x2f5a81, 'A'), ('LEAFB', 0x1234, 'B'), ('LEAFC', 0x4660, 'C')])
    signer = env.choose('signer', ['A', 'B', 'C'])
    zda = env.choose('zda', ['AT1', 'AT0'])
    if zda == 'AT0':
        ser = 'U:' + env.str('x', 2, 'AB12')
        match = True
    else:
        ser = env.choose('sign', ['', '-']) + env.choose('pre', ['', '0', '0x'])
        ser = ser + (env.str('x', 4, '0123467') if cert != 'LEAF' else
                     env.chars('x', ['2', 'fF', '5', 'aAbB', '8', '12']) if env.choose('h', [0, 1]) else
                     env.chars('x', ['3', '1', '0', '3', '3', '6', '12']))
        body = ser[1:] if ser[0] == '-' else ser
        hexa = body[2:] if body[0:2] == '0x' else body
        match = int(hexa, 16) == num
        if fmt.all_in(body, c.DIG):
            match = match or int(body, 10) == num
    t = c.sign_jws(pay(typed(env, fields(zda, ser))), c.PRIV[signer])
    judge(env, VR.ReceiptVerifier.fromCert(c.CERT[cert]), kind, text(kind, t),
          VR.CertSerialMismatchException if not match else
          'ok' if key == signer else VR.InvalidSignatureException)


def failed(env):
    """receipts marked as made during a device failure never verify"""
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'])
    zda, ser = env.choose('sys', [('AT1', '2f5a81'), ('AT0', 'U:AT1'), ('AT1', '77'), ('AT0', 'U:AT9')])
    f = fields(zda, ser)
    for i in (4, 5, 6, 7, 8):
        f[i] = env.chars('s%d' % i, ['0', ',', '0', '05'])
    k = env.choose('type', ['N', 'T', 'S'])
    if k != 'N':
        f[9] = c.TRA if k == 'T' else c.STO
    via = env.choose('via', ['store', 'cert'])
    ks = c.key_store('LEAF')
    ks.putKey('U:AT1', c.PUB['B'], None)
    rv = VR.ReceiptVerifier.fromKeyStore(ks) if via == 'store' else VR.ReceiptVerifier.fromCert(c.CERT['LEAF'])
    zero = True
    for i in (4, 5, 6, 7, 8):
        zero = zero and f[i] == '0,00'
    exp = VR.UnsignedNullReceiptException if zero and k == 'N' else VR.SignatureSystemFailedException
    if via == 'cert' and ser == '77':
        exp = VR.CertSerialMismatchException
    judge(env, rv, kind, text(kind, c.sign_jws(pay(f))), exp)


def arbitrary(env):
    """arbitrary signature bytes; a signature made for another receipt"""
    kind = env.choose('kind', ['jws', 'qr', 'ocr', 'csv'])
    f = typed(env, fields())
    good = c.sign_jws(pay(f), c.PRIV['A'])
    what = env.choose('what', ['arbitrary', 'flip', 'other', 'cut'])
    h, p, s = good.split('.')
    raw = base64.urlsafe_b64decode((s + '==').encode('ascii'))
    if what == 'arbitrary':
        raw2 = env.bytes('sig', env.choose('n', [0, 1, 32, 63, 64, 65, 70, 128]))
        env.assume(raw2 != c.FAILED.encode('ascii'))
        same = False
        env.assume(raw2 != raw)
    elif what == 'flip':
        i = env.choose('i', [0, 1, 31, 32, 62, 63])
        d = env.bytes('d', 1)
        raw2 = raw[:i] + bytes([raw[i] ^ d[0]]) + raw[i + 1:]
        same = d[0] == 0
    elif what == 'cut':
        n = env.choose('n', [0, 1, 63])
        raw2 = raw[:n]
        same = False
    else:
        g = list(f)
        g[2] = 'r2'
        s2 = c.sign_jws(pay(g), c.PRIV['A']).split('.')[2]
        raw2 = base64.urlsafe_b64decode((s2 + '==').encode('ascii'))
        same = False
    t = h + '.' + p + '.' + c.b64u(raw2)
    judge(env, VR.ReceiptVerifier.fromKeyStore(c.key_store('LEAF')), kind, text(kind, t),
          'ok' if same else VR.InvalidSignatureException)


def twice(env):
    """what was verified before, with whatever keys, does not matter"""
    form = env.choose('form', ['jws', 'qr'])
    for k in (0, 1):
        cert = env.choose('cert%d' % k, ['LEAF', 'FAKE', 'LEAFB'])      # LEAF and FAKE have the same serial
        via = env.choose('via%d' % k, ['store', 'cert'])
        signer = env.choose('signer%d' % k, ['A', 'C'])
        f = fields()
        f[2] = 'r' + env.str('x%d' % k, 1, '12')
        if env.choose('sum%d' % k, [0, 1]):
            f[5] = '7,00'
        t = c.sign_jws(pay(f), c.PRIV[signer])
        rv = VR.ReceiptVerifier.fromKeyStore(c.key_store(cert)) if via == 'store' else VR.ReceiptVerifier.fromCert(c.CERT[cert])
        if cert == 'LEAFB':
            exp = VR.NoPublicKeyException if via == 'store' else VR.CertSerialMismatchException
        else:
            exp = 'ok' if dict(LEAF='A', FAKE='C')[cert] == signer else VR.InvalidSignatureException
        judge(env, rv, form, text(form, t), exp)


CASES = [dict(name='content', fn=content), dict(name='twice', fn=twice), dict(name='opened', fn=opened), dict(name='closed', fn=closed),
         dict(name='group', fn=group), dict(name='failed', fn=failed), dict(name='arbitrary', fn=arbitrary)]
BOUNDS = ('every element of a signed receipt changed within its grammar (1-8 characters, all counters and chaining '
          'values of 5 and 8 bytes); serials of 4-7 characters in hexadecimal, decimal, prefixed and negative '
          'notation against stores of three certificates with overlapping notations; three signing keys; all '
          'signatures of 0..128 bytes; two verifications in a row with equal or different receipts, keys and certificates of the same serial')
OUTSIDE = 'longer serials; the arithmetic of ECDSA; RSA signatures (ES256 receipts cannot carry them)'
ASSUMPTIONS = ['ideal signatures: a signature verifies exactly for the key and text it was made with',
               'if a serial names one known certificate in hexadecimal and another in decimal notation, the hexadecimal reading counts']
