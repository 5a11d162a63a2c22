"""Fixtures and independent oracles shared by the harnesses.

Nothing in here uses the code under test (except where a function says so):
chaining values, turnover counters and signatures are made from hashlib and the
cryptography package directly.
"""
import base64, hashlib, re
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from . import fixdata

KEY = bytes(range(1, 33))
KEY2 = bytes(range(101, 133))
PRIV = {}
PUB = {}
CERT = {}
for _n in fixdata.KEYS:
    PRIV[_n] = serialization.load_pem_private_key(fixdata.KEYS[_n].encode(), None, default_backend())
    PUB[_n] = PRIV[_n].public_key()
for _n in fixdata.CERTS:
    CERT[_n] = x509.load_pem_x509_certificate(fixdata.CERTS[_n].encode(), default_backend())
for _n in ('UNKSIG', 'EDSIG', 'EDKEY', 'EDROOT', 'BADKEY'):
    CERT[_n] = x509.load_der_x509_certificate(base64.b64decode(fixdata.EXTRA[_n]), default_backend())

def cert_b64(name):
    """a certificate the way DEPs carry it"""
    if name in fixdata.EXTRA:
        return fixdata.EXTRA[name]
    return ''.join(fixdata.CERTS[name].strip().split('\n')[1:-1])

DIG = '0123456789'
FAILED = 'Sicherheitseinrichtung ausgefallen'
FAILED_SIG = base64.urlsafe_b64encode(FAILED.encode()).decode().replace('=', '')
TRA = base64.b64encode(b'TRA').decode()
STO = base64.b64encode(b'STO').decode()
HEADER = '{"alg":"ES256"}'
TS = '2017-03-01T12:00:0%d'


def b64u(data):
    return base64.urlsafe_b64encode(data).replace(b'=', b'').decode('utf-8')


def b64(data):
    return base64.b64encode(data).decode('utf-8')


def sha256(data):
    return hashlib.sha256(data).digest()


def chain_value(prev):
    """chaining value for the successor of prev (JWS text or register id)"""
    return b64(sha256(prev.encode('utf-8'))[0:8])


def enc_counter(key, reg, rid, value, size=5):
    iv = sha256(reg.encode('utf-8') + rid.encode('utf-8'))[0:16]
    e = Cipher(algorithms.AES(key), modes.CTR(iv), default_backend()).encryptor()
    return b64(e.update(value.to_bytes(size, 'big', signed=True)) + e.finalize())


def dec_counter(key, reg, rid, text):
    iv = sha256(reg.encode('utf-8') + rid.encode('utf-8'))[0:16]
    e = Cipher(algorithms.AES(key), modes.CTR(iv), default_backend()).encryptor()
    return int.from_bytes(e.update(base64.b64decode(text)) + e.finalize(), 'big', signed=True)


def payload(zda, reg, rid, ts, sums, ctr, serial, chain):
    return '_R1-' + zda + '_' + '_'.join([reg, rid, ts] + list(sums) + [ctr, serial, chain])


def sign_jws(pl, priv=None, header=HEADER):
    """priv None: signature device failure"""
    data = b64u(header.encode('utf-8')) + '.' + b64u(pl.encode('utf-8'))
    if priv is None:
        return data + '.' + FAILED_SIG
    r, s = decode_dss_signature(priv.sign(data.encode('utf-8'), ec.ECDSA(hashes.SHA256())))
    return data + '.' + b64u(r.to_bytes(32, 'big') + s.to_bytes(32, 'big'))


def compact(jws):
    """the form parsers deliver receipts in: bytes of the last two segments?
    (made with the real function: the form is an implementation detail)"""
    from librksv import depparser
    return depparser.shrinkDEPReceipt(jws)


def cents(s):
    """exact value of an amount text (well-formed)"""
    neg = s[0:1] == '-'
    if neg:
        s = s[1:]
    v = 0
    for i in range(len(s)):
        if i != len(s) - 3:
            v = v * 10 + int(s[i])
    return -v if neg else v


ZERO = ('0,00',) * 5


class Spec(object):
    """One receipt to be made. kind: 'N' normal, 'T' training, 'S' cancellation;
    signed: key name or None (signature device failure)."""

    def __init__(self, rid, sums=ZERO, kind='N', signed='A', ts=None, reg='reg', zda='AT1',
                 serial='2f5a81', ctr=None, chain=None, size=8, total=None):
        self.rid = rid
        self.sums = tuple(sums)
        self.kind = kind
        self.signed = signed
        self.ts = ts or TS % 0
        self.reg = reg
        self.zda = zda
        self.serial = serial
        self.ctr = ctr
        self.chain = chain
        self.size = size
        self.total = total          # total in cents, or computed

    def value(self):
        return self.total if self.total is not None else sum(cents(s) for s in self.sums)


def make_dep(specs, prev=None, counter=0, key=KEY):
    """Receipts as JWS texts, chained after prev (JWS text; None: register id)
    with correct counters, except where a spec overrides. Returns (list, counter)."""
    out = []
    for s in specs:
        if s.kind != 'T':
            counter = counter + s.value()
        if s.ctr is not None:
            ctr = s.ctr
        elif s.kind == 'T':
            ctr = TRA
        elif s.kind == 'S':
            ctr = STO
        else:
            ctr = enc_counter(key, s.reg, s.rid, counter, s.size)
        chain = s.chain if s.chain is not None else chain_value(prev if prev is not None else s.reg)
        pl = payload(s.zda, s.reg, s.rid, s.ts, s.sums, ctr, s.serial, chain)
        prev = sign_jws(pl, None if s.signed is None else PRIV[s.signed])
        out.append(prev)
    return out, counter


def key_store(*names):
    """a key store (real class) with the named certificates"""
    from librksv import key_store as k
    ks = k.KeyStore()
    for n in names:
        ks.putPEMCert(fixdata.CERTS[n])
    return ks


def outcome(fn, *args, **kw):
    """('ok', result) or ('exc', exception)"""
    try:
        return ('ok', fn(*args, **kw))
    except Exception as e:
        return ('exc', e)


def call(env, label, expected, fn, *args, **kw):
    """runs fn; an exception that is not in expected fails the check `label`.
    Returns (result, exception)"""
    try:
        return fn(*args, **kw), None
    except expected as e:
        return None, e
    except Exception:
        env.fail(label)
        return None, None


class Pool(object):
    """process pool stand-in: arguments and results go through pickling,
    the packages are processed in order"""

    def map_async(self, fn, args):
        import pickle
        out = []
        for a in args:
            a = pickle.loads(pickle.dumps(a))
            try:
                r = fn(a)
            except Exception as e:
                return _Raised(pickle.loads(pickle.dumps(e)))
            out.append(pickle.loads(pickle.dumps(r)))
        return _Result(out)

    def map(self, fn, args):
        return self.map_async(fn, args).get()


class _Result(object):
    def __init__(self, x):
        self.x = x

    def get(self, timeout=None):
        return self.x


class _Raised(object):
    def __init__(self, e):
        self.e = e

    def get(self, timeout=None):
        raise self.e
