"""P12 Group certificates are accepted only through an intact chain to a trusted one."""
import io, json
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from librksv import verify, key_store, depparser, verify_receipt, verification_state
from . import common as c, dep

V = verify
EXC = (V.UntrustedCertificateException, V.CertificateChainBrokenException, V.CertificateSerialCollisionException)


class Unsupported(BaseException):
    """the code under test uses something of a certificate the stand-ins do not have"""


class Stub(object):
    def __getattr__(self, n):
        if n[0:2] == '__':
            raise AttributeError(n)
        raise Unsupported(n)


class ECKey(Stub):
    def __init__(self, num):
        self.num = num

    def verify(self, sig, data, alg):
        if sig.by != self.num or sig.data is not data or alg.algorithm is not HASH:
            raise InvalidSignature()


class RSAKey(Stub):
    def __init__(self, num):
        self.num = num

    def verify(self, sig, data, pad, halg):
        if sig.by != self.num or sig.data is not data or halg is not HASH:
            raise InvalidSignature()


class OtherKey(Stub):
    def __init__(self, num):
        self.num = num

    def verify(self, *args):
        pass


ec.EllipticCurvePublicKey.register(ECKey)
rsa.RSAPublicKey.register(RSAKey)
from cryptography.hazmat.primitives import hashes
HASH = hashes.SHA256()


class Data(object):
    pass


class Signature(object):
    def __init__(self, by, data):
        self.by = by
        self.data = data


class Cert(Stub):
    """a certificate: serial, fingerprint byte, number of its key, number of the
    key it is signed with"""

    def __init__(self, serial, fp, key, by, kind=ECKey):
        self.serial_number = serial
        self.fp = fp
        self.key = kind(key)
        self.signature_hash_algorithm = HASH
        self.tbs_certificate_bytes = Data()
        self.signature = Signature(by, self.tbs_certificate_bytes)

    def fingerprint(self, alg):
        return bytes(range(31)) + self.fp

    def public_key(self):
        return self.key


def expected(walk, store):
    """walk: [(serial, fp, signed by next?)], store: [(serial, fp or None)]"""
    expect = None
    for i, (serial, fp, ok) in enumerate(walk):
        found = None
        for s, f in store:
            if abs(s) == abs(serial):
                found = f if f is None else (f,)
        if found is not None:
            expect = 'ok' if found[0] == fp else V.CertificateSerialCollisionException
        elif i == len(walk) - 1:
            expect = V.UntrustedCertificateException
        elif not ok:
            expect = V.CertificateChainBrokenException
        if expect is not None:
            return expect


def judge(env, walk, store, run):
    expect = expected(walk, store)
    try:
        run()
        env.check(expect == 'ok', 'a certificate without an intact chain to a trusted one is rejected')
    except EXC as e:
        env.check(expect != 'ok', 'a certificate with an intact chain to a trusted one is accepted')
        env.check(type(e) is expect, 'the rejection names the reason')
    except Exception:
        env.fail('certificates are rejected as such only')


def abstract(env):
    """certificates as they are seen by the code: serial, fingerprint, key, signature"""
    n = env.choose('chain', [0, 1, 2, 3] if env.thorough else [0, 1, 2])
    hi = 3
    certs = []
    for i in range(n + 1):
        kind = env.choose('kind%d' % i, [ECKey, RSAKey, OtherKey]) if i else ECKey
        certs.append(Cert(env.int('serial%d' % i, -hi if i == 0 else 1, hi), env.bytes('fp%d' % i, 1, range(3)), i,
                          env.int('by%d' % i, 0, n + 1), kind))
    env.assume(certs[0].serial_number != 0)
    ks = key_store.KeyStore()
    store = []
    for i in range(env.choose('store', [0, 1, 2])):
        serial = env.int('kserial%d' % i, 1, hi)
        if env.choose('withcert%d' % i, [1, 0]):
            x = Cert(serial, env.bytes('kfp%d' % i, 1, range(3)), 9, 9)
            ks.putKey('%x' % serial, x.key, x)
            store.append((serial, x.fp))
        else:
            ks.putKey('%x' % serial, ECKey(9), None)
            store.append((serial, None))
    walk = []
    for i, x in enumerate(certs):
        ok = False
        if i < n:
            y = certs[i + 1]
            ok = x.signature.by == y.key.num and not isinstance(y.key, OtherKey)
        walk.append((x.serial_number, x.fp, ok))
    judge(env, walk, store, lambda: V.verifyCert(certs[0], certs[1:], ks))


# name: (serial, own key, key it is signed with)
REAL = dict(ROOT=(0xab01, 'R', 'R'), INT=(0x77, 'I', 'R'), LEAF=(0x2f5a81, 'A', 'I'), LEAFB=(0x1234, 'B', 'I'),
            FAKE=(0x2f5a81, 'C', 'C'), FAKEINT=(0x77, 'C', 'C'), RSAROOT=(0xcc02, 'rsa', 'rsa'), RSALEAF=(0x99, 'A', 'rsa'))


def real(env):
    """real certificates, in a DEP group"""
    walk = [env.choose('cert', ['LEAF', 'FAKE', 'RSALEAF', 'LEAFB'])]
    for i in range(env.choose('n', [0, 1, 2, 3] if env.thorough else [0, 1, 2])):
        walk.append(env.choose('c%d' % i, ['INT', 'ROOT', 'FAKEINT', 'RSAROOT'] + (['LEAF', 'FAKE'] if env.thorough else [])))
    store = env.choose('store', [(), ('LEAF',), ('INT',), ('ROOT',), ('FAKE',), ('FAKEINT',), ('RSAROOT',), ('INT', 'LEAF'),
                                 ('ROOT', 'FAKEINT'), ('LEAFB',)])
    how = env.choose('how', ['cert', 'DEP', 'parsed', 'two'] if env.thorough else ['cert', 'parsed', 'DEP'])
    ks = c.key_store(*store)
    w = [(REAL[x][0], x, i + 1 < len(walk) and REAL[walk[i + 1]][1] == REAL[x][2]) for i, x in enumerate(walk)]
    s = [(REAL[x][0], x) for x in store]
    key = REAL[walk[0]][1]
    if how == 'cert':
        judge(env, w, s, lambda: V.verifyCert(c.CERT[walk[0]], [c.CERT[x] for x in walk[1:]], ks))
        return
    z = dict(zda='AT1', serial='%x' % REAL[walk[0]][0], signed=key)
    if how == 'two':
        # a second group whose chain is the one in question
        g = dict(zda='AT1', serial='cc02')
        jws, _ = dep.build([c.Spec('r0', **z), c.Spec('r1', **z)])
        groups = [(walk[0], walk[1:], jws[:1]), (walk[0], walk[1:], jws[1:])]
    else:
        jws, _ = dep.build([c.Spec('r0', **z)])
        groups = [(walk[0], walk[1:], jws)]
    d = dep.dep_dict(groups)
    if how == 'DEP':
        judge(env, w, s, lambda: V.verifyDEP(d, ks, None))
    else:
        judge(env, w, s, lambda: V.verifyParsedDEP(depparser.DictDEPParser(d, 2), ks, None, None, None, None, 2, 1))


# groups of one DEP: (certificate, chain)
GROUPS = [('LEAF', ['INT']), ('LEAFB', ['INT']), ('FAKE', []), ('LEAFB', []), ('FAKE', ['INT']), ('LEAF', ['INT', 'ROOT'])]
SPLIT = [('DEP', 0, 1, 0), ('dict', 0, 1, 0), ('dict', 1, 1, 0), ('dict', 100, 1, 0), ('dict', 3, 1, 0), ('dict', 0, 2, 0),
         ('dict', 2, 2, 1), ('dict', 0, 3, 1), ('file', 0, 1, 0), ('file', 2, 1, 0), ('file', 100, 2, 1)]


def several(env):
    """every group of a DEP counts, however the DEP is divided"""
    T = env.thorough
    n = env.choose('n', [2, 3])
    own = GROUPS if n == 2 or T else GROUPS[:4]
    gs = [own[0] if n == 3 and not T and i == 1 else env.choose('group%d' % i, own) for i in range(n)]
    store = env.choose('store', [('INT',), ('LEAF', 'LEAFB'), ('LEAF',), ('FAKE', 'INT'), ('ROOT',)])
    kind, chunk, nprocs, pool = env.choose('split', SPLIT)
    ks = c.key_store(*store)
    expects = []
    specs = []
    groups = []
    each = env.choose('each', [1, 2]) if T or n == 2 else 1
    for i, (cert, chain) in enumerate(gs):
        expects.append(expected([(REAL[x][0], x, i2 + 1 < len(chain) + 1 and REAL[chain[i2]][1] == REAL[x][2])
                                 for i2, x in enumerate([cert] + chain)], [(REAL[x][0], x) for x in store]))
        for j in range(each):
            specs.append(c.Spec('r%d%d' % (i, j), zda='AT1', serial='%x' % REAL[cert][0], signed=REAL[cert][1]))
    jws, _ = dep.build(specs)
    for i, (cert, chain) in enumerate(gs):
        groups.append((cert, chain, jws[each * i:each * i + each]))
    d = dep.dep_dict(groups)
    bad = [e for e in expects if e != 'ok']
    try:
        if kind == 'DEP':
            V.verifyDEP(d, ks, c.KEY)
        else:
            p = depparser.DictDEPParser(d, nprocs) if kind == 'dict' else \
                depparser.IncrementalDEPParser.fromFd(io.BytesIO(json.dumps(d).encode('utf-8')))
            V.verifyParsedDEP(p, ks, c.KEY, None, None, c.Pool() if pool else None, nprocs, chunk)
        env.check(not bad, 'every group with a certificate without an intact chain to a trusted one is rejected')
    except EXC as e:
        env.check(type(e) in bad, 'the rejection names the reason')
    except Exception:
        env.fail('certificates are rejected as such only')


COMBO = [('LEAF', ['INT'], ('INT',)), ('LEAF', ['INT'], ('ROOT',)), ('LEAF', ['INT', 'ROOT'], ('ROOT',)), ('FAKE', [], ('LEAF',)),
         ('FAKE', [], ('FAKE',)), ('LEAF', ['FAKEINT'], ('INT',)), ('LEAFB', ['INT'], ('INT',)), ('LEAFB', [], ('ROOT',)),
         ('FAKE', ['INT'], ('INT',)), ('LEAF', [], ('FAKE',)), ('LEAF', [], ('LEAFB',))]


def twice(env):
    """what was trusted before does not matter"""
    for k in (0, 1):
        cert, chain, store = env.choose('what%d' % k, COMBO)
        walk = [cert] + chain
        ks = c.key_store(*store)
        w = [(REAL[x][0], x, i + 1 < len(walk) and REAL[walk[i + 1]][1] == REAL[x][2]) for i, x in enumerate(walk)]
        s = [(REAL[x][0], x) for x in store]
        if env.choose('how', ['cert', 'DEP']) == 'cert':
            judge(env, w, s, lambda: V.verifyCert(c.CERT[cert], [c.CERT[x] for x in chain], ks))
        else:
            jws, _ = dep.build([c.Spec('r0', zda='AT1', serial='%x' % REAL[cert][0], signed=REAL[cert][1])])
            d = dep.dep_dict([(cert, chain, jws)])
            judge(env, w, s, lambda: V.verifyDEP(d, ks, None))


# other signature and key types: (certificate, chain, store) and the expected outcome
ODD = [('UNKSIG', ['INT'], 'INT', V.CertificateChainBrokenException), ('EDSIG', ['INT'], 'INT', V.CertificateChainBrokenException),
       ('EDSIG', ['EDROOT'], 'INT', V.CertificateChainBrokenException), ('EDKEY', ['INT'], 'INT', 'ok'),
       ('LEAF', ['EDROOT'], 'ROOT', V.CertificateChainBrokenException), ('LEAF', ['EDROOT'], 'INT', V.CertificateChainBrokenException),
       ('LEAF', ['INT', 'EDROOT'], 'ROOT', V.CertificateChainBrokenException), ('UNKSIG', [], 'ROOT', V.UntrustedCertificateException),
       ('UNKSIG', [], 'LEAF', V.CertificateSerialCollisionException), ('EDSIG', ['RSAROOT'], 'RSAROOT', V.CertificateChainBrokenException),
       ('UNKSIG', ['RSAROOT'], 'RSAROOT', V.CertificateChainBrokenException), ('BADKEY', ['INT'], 'INT', 'parse'),
       ('LEAF', ['BADKEY'], 'ROOT', 'parse')]


def odd(env):
    cert, chain, store, expect = env.choose('what', ODD)
    ks = c.key_store(store)
    how = env.choose('how', ['cert', 'DEP', 'parsed'])
    try:
        if how == 'cert':
            if expect == 'parse':
                return
            V.verifyCert(c.CERT[cert], [c.CERT[x] for x in chain], ks)
        else:
            jws, _ = dep.build([c.Spec('r0')])
            d = dep.dep_dict([(cert, chain, jws)])
            if how == 'DEP':
                V.verifyDEP(d, ks, None)
            else:
                V.verifyParsedDEP(depparser.DictDEPParser(d, 1), ks, None)
        env.check(expect == 'ok' and how == 'cert', 'a certificate without an intact chain to a trusted one is rejected')
    except EXC as e:
        env.check(type(e) is expect, 'the rejection names the reason')
    except depparser.MalformedCertificateException:
        env.check(expect == 'parse', 'certificates that can be read are not malformed')
    except verify_receipt.receipt.ReceiptException:
        env.check(expect == 'ok' and how != 'cert', 'a receipt does not verify with a key of another type')
    except Exception:
        env.fail('certificates are rejected as such only')


CASES = [dict(name='odd', fn=odd), dict(name='abstract', fn=abstract), dict(name='real', fn=real), dict(name='twice', fn=twice), dict(name='several', fn=several, seconds=dict(quick=80, thorough=240))]
BOUNDS = ('chains of up to 3 (thorough 4) certificates with symbolic serials (3 values, the first one also negative), '
          'symbolic fingerprints, symbolic signing relations and three key types against stores of up to 2 entries with '
          'and without certificate; real ECDSA and RSA certificates in 4 roles, chains of up to 3 (thorough 4) out of 4 '
          '(6), 10 key stores, directly and inside DEPs; DEPs of 2-3 groups with 6 kinds of certificate and chain each, against 5 key stores, in 11 ways of '
          'division; two checks in a row; unknown and Ed25519 signatures and keys')
OUTSIDE = 'validity periods and extensions (the library does not look at them); longer chains'
ASSUMPTIONS = ['a certificate is what the code can see of it: serial, fingerprint, key and signature']
