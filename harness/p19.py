"""P19 Key stores store, find and restore keys faithfully."""
import base64, configparser, json, copy
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from librksv import key_store, utils
from . import common as c, fixdata

KS = key_store
IDAL = 'aU:-0'


def pem_cert(name):
    return fixdata.CERTS[name]


def der_key(k):
    return k.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def pem_key(name):
    return c.PUB[name].public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo).decode('ascii')


def b64_key(name):
    return base64.b64encode(der_key(c.PUB[name])).decode('ascii')


SERIAL = dict(ROOT='ab01', INT='77', LEAF='2f5a81', LEAFB='1234', LEAFC='4660')
OWNER = dict(LEAF='A', LEAFB='B', LEAFC='C', INT='I', ROOT='R')


class Model(object):
    """[(id, key name, certificate name)], at most one entry per id"""

    def __init__(self):
        self.entries = []

    def put(self, i, k, ce):
        self.delete(i)
        self.entries.append((i, k, ce))

    def delete(self, i):
        self.entries = [e for e in self.entries if e[0] != i]

    def get(self, i):
        for e in self.entries:
            if e[0] == i:
                return e
        return None


def same(env, ks, m, queries, label):
    env.check(len(list(ks.getKeyIds())) == len(m.entries), label + ': number of entries')
    for q in list(queries) + [e[0] for e in m.entries]:
        e = m.get(q)
        k, ce = ks.getKey(q), ks.getCert(q)
        if e is None:
            env.check(k is None and ce is None, label + ': nothing is found under another identifier')
            continue
        env.check(k is not None and der_key(k) == der_key(c.PUB[e[1]]), label + ': the key is found')
        if e[2] is None:
            env.check(ce is None, label + ': keys without certificate have none')
        else:
            env.check(ce == c.CERT[e[2]], label + ': the certificate is found')


def ident(env, name):
    """an identifier: arbitrary, or one that a certificate could have"""
    how = env.choose(name + 'how', ['any', 'hex', 'serial'])
    if how == 'serial':
        return env.choose(name + 'ser', ['2f5a81', '1234'])
    if how == 'hex':
        return env.chars(name, ['12', '2f', '37', '45'])
    return env.str(name, env.choose(name + 'n', [1, 3]), IDAL)


def history(env):
    """put, replace and delete in any order; JSON round trip at the end"""
    T = env.thorough
    ks, m = KS.KeyStore(), Model()
    n = env.choose('steps', [1, 2, 3, 4] if T else [1, 2, 3])
    queries = []
    keep = None
    try:
        for i in range(n):
            op = env.choose('op%d' % i, ['cert', 'key', 'put', 'del'] + (['copy'] if i == 1 else []))
            if op == 'cert':
                name = env.choose('cert%d' % i, ['LEAF', 'LEAFB'])
                ks.putPEMCert(pem_cert(name))
                m.put(SERIAL[name], OWNER[name], name)
                queries.append(SERIAL[name])
            elif op == 'key':
                x = ident(env, 'id%d' % i)
                name = 'ABC'[i % 3]
                ks.putPEMKey(x, pem_key(name))
                m.put(x, name, None)
                queries.append(x)
            elif op == 'put':
                # the general form: keys without certificate, or certificates under their serial
                name = env.choose('put%d' % i, ['INT', None])
                if name is None:
                    x = env.str('id%d' % i, 2, IDAL)
                    ks.putKey(x, c.PUB['R'], None)
                    m.put(x, 'R', None)
                else:
                    x = KS.numSerialToKeyId(c.CERT[name].serial_number)
                    ks.putKey(x, c.PUB[OWNER[name]], c.CERT[name])
                    m.put(SERIAL[name], OWNER[name], name)
                queries.append(x)
            elif op == 'del':
                x = ident(env, 'id%d' % i)
                ks.delKey(x)
                m.delete(x)
                queries.append(x)
            else:
                # copies are independent
                keep = (ks, list(m.entries))
                ks = copy.deepcopy(ks)
        q = env.str('q', env.choose('qn', [1, 3]), IDAL)
        same(env, ks, m, queries + [q], 'store')
        if keep is not None:
            m0 = Model()
            m0.entries = keep[1]
            same(env, keep[0], m0, queries, 'copied store')
        data = json.loads(json.dumps(ks.writeStoreToJson(None)))
        ks2 = KS.KeyStore.readStoreFromJson(data)
    except Exception:
        env.fail('key stores can be used')
        return
    env.check(utils.loadKeyFromJson(data) is None, 'no AES key appears')
    same(env, ks2, m, queries + [q], 'JSON')


def aes(env):
    """the AES key is kept"""
    k = env.bytes('k', env.choose('len', [32, 16, 1, 0]))
    b64 = base64.b64encode(k).decode('ascii')
    try:
        ks = c.key_store('LEAF')
        data = json.loads(json.dumps(ks.writeStoreToJson(b64)))
        got = utils.loadKeyFromJson(data)
        ks2 = KS.KeyStore.readStoreFromJson(data)
    except Exception:
        env.fail('the AES key can be stored')
        return
    env.check(got == k, 'the AES key is kept')
    env.check(data['base64AESKey'] == b64, 'the AES key is stored as Base64')
    m = Model()
    m.put('2f5a81', 'A', 'LEAF')
    same(env, ks2, m, ['77'], 'JSON')


def serial(env):
    """hexadecimal and decimal notation"""
    kind = env.choose('kind', ['any', 'digits', 'lower', 'upper'])
    n = env.choose('n', ([1, 2, 3, 4] if env.thorough else [0, 1, 2, 3]) if kind == 'any' else
                   [4, 6, 8] if env.thorough else [4, 5])
    neg = env.choose('neg', [False, True])
    s = env.str('s', n, dict(any='0123456789abcdefABCDEFgG.', digits='0123456789', lower='0123456789abcdef',
                             upper='ABCDEF')[kind])
    try:
        ids = KS.strSerialToKeyIds(('-' if neg else '') + s)
    except Exception:
        env.fail('serials are converted')
        return
    hx, dc = (0, 0) if n else (None, None)
    for ch in s:
        if hx is not None and ch in '0123456789abcdefABCDEF':
            hx = hx * 16 + int(ch, 16)
        else:
            hx = None
        if dc is not None and ch in '0123456789':
            dc = dc * 10 + int(ch)
        else:
            dc = None
    want = [x for x in (hx, dc) if x is not None]
    env.check(len(ids) == len(want), 'one identifier per possible notation')
    for i, x in zip(ids, want):
        v = 0
        for ch in i:
            env.check(ch in '0123456789abcdef', 'identifiers are lower case hexadecimal')
            v = v * 16 + int(ch, 16)
        env.check(v == x, 'hexadecimal first, then decimal')
        env.check(len(i) == 1 or i[0] != '0', 'no leading zeros')


def text_hex(x, n):
    """x in lower case hexadecimal (written out)"""
    out = ''
    for k in range(n - 1, -1, -1):
        d = (x >> (4 * k)) & 15
        if out == '' and k > 0 and d == 0:
            continue
        out += '0123456789abcdef'[d]
    return out


def number(env):
    """serial numbers as identifiers"""
    x = env.int('x', -(1 << 31), 1 << 31)
    try:
        s = KS.numSerialToKeyId(x)
    except Exception:
        env.fail('serials are converted')
        return
    v = 0
    for ch in s:
        env.check(ch in '0123456789abcdef', 'identifiers are lower case hexadecimal')
        v = v * 16 + int(ch, 16)
    env.check(v == (x if x >= 0 else -x), 'the identifier is the serial')
    env.check(len(s) == 1 or s[0] != '0', 'no leading zeros')
    ids = KS.strSerialToKeyIds(s)
    env.check(len(ids) > 0 and ids[0] == s, 'the identifier of a serial is found by its hexadecimal notation')


def entry(i, typ, text):
    return {'id': i, 'signatureDeviceType': typ, 'signatureCertificateOrPublicKey': text}


def read(env):
    """well-formed stores written by others"""
    n = env.choose('n', [1, 2])
    m = Model()
    cp = {}
    for i in range(n):
        typ = env.choose('typ%d' % i, ['CERTIFICATE', 'PUBLIC_KEY'])
        if typ == 'CERTIFICATE':
            name = ['LEAF', 'LEAFC'][i]
            # any notation is allowed, hexadecimal is preferred
            raw = env.choose('neg%d' % i, ['', '-']) + env.str('id%d' % i, env.choose('len%d' % i, ([1, 3] if env.thorough else [1, 2]) if i == 0 else [1]), '0129aAfF')
            v = 0
            for ch in raw:
                if ch != '-':
                    v = v * 16 + int(ch, 16)
            k, key = text_hex(v, 3), OWNER[name]
            text = c.cert_b64(name)
        else:
            name, key = None, 'BI'[i]
            raw = k = env.str('id%d' % i, env.choose('len%d' % i, [0, 1, 3] if i == 0 else [1]), '0129aAfFU:\xe4')
            text = b64_key(key)
        for other in cp:
            env.assume(other != raw)
        for e in m.entries:
            env.assume(e[0] != k)
        cp[raw] = entry(raw, typ, text)
        m.put(k, key, name)
    data = {'base64AESKey': c.b64(c.KEY), 'certificateOrPublicKeyMap': cp}
    if env.choose('extra', [False, True]):
        data['other'] = {'x': [1]}
    try:
        ks = KS.KeyStore.readStoreFromJson(json.loads(json.dumps(data)))
    except Exception:
        env.fail('well-formed stores are read')
        return
    same(env, ks, m, [env.str('q', 1, '0129aAfF')], 'read')


class _Odd(object):
    pass


def damage(s, how):
    if how == 'empty':
        return ''
    if how == 'cut':
        return s[:-4]
    if how == 'short':
        return s[:40]
    if how == 'char':
        return s[:60] + '!' + s[61:]
    if how == 'space':
        return s[:60] + ' ' + s[61:]
    if how == 'nonascii':
        return s[:60] + '\xe4' + s[61:]
    if how == 'surrogate':
        return s[:60] + '\ud800' + s[61:]
    if how == 'flip':
        return s[:8] + ('A' if s[8] != 'A' else 'B') + s[9:]
    if how == 'header':
        return '-----BEGIN CERTIFICATE-----\n' + s + '\n-----END CERTIFICATE-----'
    if how == 'null':
        return '\x00'
    return s


DAMAGE = ['empty', 'cut', 'short', 'char', 'space', 'nonascii', 'surrogate', 'flip', 'header', 'null']


def value(env, where):
    """some JSON value"""
    t = env.choose('type', ['none', 'bool', 'int', 'float', 'list', 'dict', 'empty', 'str', 'liststr'])
    if t == 'int':
        return env.int('v', -5, 5)
    if t == 'str' and where == 'signatureCertificateOrPublicKey':
        return env.choose('v', ['', 'a', 'ab1 ', ':"\xe4'])
    if t == 'str':
        return env.str('v', env.choose('vn', [0, 1, 3]), 'ab1 :"\xe4')
    return dict(none=None, bool=True, float=1.5, list=[], dict={'id': '1'}, empty={}, liststr=['x'])[t]


def malformed(env):
    """one element is missing, has the wrong type or the wrong content"""
    typ = env.choose('devtype', ['CERTIFICATE', 'PUBLIC_KEY'])
    i = env.choose('id', ['2f5a81', 'U:X-1']) if typ == 'PUBLIC_KEY' else '2f5a81'
    text = c.cert_b64('LEAF') if typ == 'CERTIFICATE' else b64_key('B')
    e = entry(i, typ, text)
    data = {'base64AESKey': c.b64(c.KEY), 'certificateOrPublicKeyMap': {'1234': entry('1234', 'CERTIFICATE', c.cert_b64('LEAFB')), i: e}}
    where = env.choose('where', ['root', 'map', 'entry', 'id', 'signatureDeviceType', 'signatureCertificateOrPublicKey'])
    what = env.choose('what', ['value', 'missing', 'damage'])
    valid = False
    if what == 'missing':
        env.assume(where in ('map', 'id', 'signatureDeviceType', 'signatureCertificateOrPublicKey'))
        if where == 'map':
            del data['certificateOrPublicKeyMap']
        else:
            del e[where]
    elif what == 'damage' and where in ('id', 'signatureDeviceType'):
        good = e[where]
        how = env.choose('how', ['upper', 'lower', 'space', 'cut', 'char', 'more'])
        v = {'upper': good.upper(), 'lower': good.lower(), 'space': ' ' + good, 'cut': good[:-1]}.get(how)
        if how == 'char':
            v = good[:-1] + env.str('x', 1, '10YTE')
        elif how == 'more':
            v = good + env.str('x', 1, '0 -')
        e[where] = v
        valid = v == good
    elif what == 'damage':
        env.assume(where == 'signatureCertificateOrPublicKey')
        how = env.choose('how', DAMAGE + ['badkey', 'other', 'edkey', 'kind'])
        if how == 'badkey':
            e[where] = fixdata.EXTRA['BADKEY' if typ == 'CERTIFICATE' else 'BADPUB']
        elif how == 'edkey':
            e[where] = fixdata.EXTRA['EDKEY' if typ == 'CERTIFICATE' else 'EDPUB']
        elif how == 'other':
            e[where] = c.cert_b64('LEAFC') if typ == 'CERTIFICATE' else b64_key('R')
        elif how == 'kind':
            e[where] = b64_key('B') if typ == 'CERTIFICATE' else c.cert_b64('LEAF')
        else:
            e[where] = damage(text, how)
        valid = None if how not in ('empty', 'cut', 'short', 'null', 'kind') else False
    else:
        v = value(env, where)
        if where == 'root':
            data = v
        elif where == 'map':
            data['certificateOrPublicKeyMap'] = v
            valid = isinstance(v, dict) and len(v) == 0
        elif where == 'entry':
            data['certificateOrPublicKeyMap'][i] = v
        else:
            e[where] = v
            if where == 'id':
                valid = None if isinstance(v, str) and v == i else False
            elif where == 'signatureDeviceType':
                valid = None if isinstance(v, str) and v in ('CERTIFICATE', 'PUBLIC_KEY') else False
    try:
        ks = KS.KeyStore.readStoreFromJson(data)
    except KS.KeyStoreParseException:
        if valid is not None:
            env.check(not valid, 'well-formed stores are read')
        env.reach('rejected')
        return
    except Exception:
        env.fail('malformed stores are rejected with key store errors')
        return
    if valid is not None:
        env.check(valid, 'malformed stores are rejected')
    for k in ks.getKeyIds():
        env.check(ks.getKey(k) is not None, 'everything read has a key')


def ini(env):
    """the old format keeps keys and certificates, too"""
    ks, m = KS.KeyStore(), Model()
    ids = ['U:ATU12345678-K1', 'S:123-1', 'G:9012-k', 'plain', '1f', 'Upper', 'USG', 'aU:b']
    for i in range(env.choose('keys', [0, 1, 2])):
        x = env.choose('id%d' % i, ids)
        ks.putKey(x, c.PUB['BI'[i]], None)
        m.put(x, 'BI'[i], None)
    for name in env.choose('certs', [[], ['LEAF'], ['LEAFB', 'LEAF']]):
        ks.putPEMCert(pem_cert(name))
        m.put(SERIAL[name], OWNER[name], name)

    def conf():
        x = configparser.RawConfigParser()
        x.optionxform = str
        return x
    import io
    try:
        a = conf()
        ks.writeStore(a)
        f = io.StringIO()
        a.write(f)
        b = conf()
        b.read_string(f.getvalue())
        got = KS.KeyStore.readStore(b)
    except Exception:
        env.fail('the old format can be used')
        return
    same(env, got, m, ids, 'ini')


def independent(env):
    """several stores in use do not influence each other, nor do the data written"""
    stores = [(KS.KeyStore(), Model()) for _ in (0, 1)]
    queries = ['2f5a81', '1234']
    data = None
    try:
        for i in range(3):
            ks, m = stores[env.choose('store%d' % i, [0, 1])]
            op = env.choose('op%d' % i, ['LEAF', 'LEAFB', 'key', 'del'])
            if op == 'key':
                x = env.str('id%d' % i, 1, IDAL)
                ks.putPEMKey(x, pem_key('ABC'[i]))
                m.put(x, 'ABC'[i], None)
                queries.append(x)
            elif op == 'del':
                ks.delKey('2f5a81')
                m.delete('2f5a81')
            else:
                ks.putPEMCert(pem_cert(op))
                m.put(SERIAL[op], OWNER[op], op)
            if i == 1:
                data = ks.writeStoreToJson(None)
                then = Model()
                then.entries = list(m.entries)
        for ks, m in stores:
            same(env, ks, m, queries, 'store')
        old = KS.KeyStore.readStoreFromJson(json.loads(json.dumps(data)))
    except Exception:
        env.fail('key stores can be used')
        return
    same(env, old, then, queries, 'JSON')
    old.putPEMKey('zz', pem_key('R'))
    for ks, m in stores:
        same(env, ks, m, ['zz'], 'store')


CASES = [dict(name='history', fn=history, seconds=dict(quick=180, thorough=300)), dict(name='aes', fn=aes),
         dict(name='serial', fn=serial), dict(name='number', fn=number), dict(name='read', fn=read),
         dict(name='malformed', fn=malformed), dict(name='ini', fn=ini), dict(name='independent', fn=independent)]
BOUNDS = ('up to 3 operations (4 in the thorough tier; on one or two stores) on identifiers of 1-4 arbitrary characters and three certificates; any AES key; '
          'serial texts of up to 4 (6) characters, serial numbers up to 2^31; stores of up to two entries with any identifiers; one element '
          'missing, of any JSON type or with damaged content; 8 identifiers in the INI format')
OUTSIDE = ('certificates stored under identifiers that are not their serial; white space, underscores, prefixes and non-ASCII digits in '
           'serial texts; the syntax of PEM contents beyond the listed damages')
ASSUMPTIONS = ['the cryptography package decodes keys and certificates correctly']
