"""Helpers for the demonstrations: receipts, DEPs and keys made without the
code under test."""
import base64
import datetime
import gettext
import hashlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
gettext.install('rktool', './lang')

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import \
        decode_dss_signature
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.x509.oid import NameOID

BROKEN = 'Sicherheitseinrichtung ausgefallen'
KEY = bytes(range(32))


def b64(b):
    return base64.b64encode(b).decode()


def b64u(b):
    return base64.urlsafe_b64encode(b).decode().rstrip('=')


def chain(text):
    return hashlib.sha256(text.encode('utf-8')).digest()[:8]


def newKey():
    return ec.generate_private_key(ec.SECP256R1())


def newCert(priv, serial, signer=None, issuer='issuer', cn='device'):
    now = datetime.datetime(2017, 1, 1)
    b = x509.CertificateBuilder()
    b = b.subject_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)]))
    b = b.issuer_name(x509.Name(
        [x509.NameAttribute(NameOID.COMMON_NAME, issuer)]))
    b = b.not_valid_before(now)
    b = b.not_valid_after(now + datetime.timedelta(days=36500))
    b = b.serial_number(serial)
    b = b.public_key(priv.public_key())
    return b.sign(signer or priv, hashes.SHA256())


def pem1(cert):
    return ''.join(cert.public_bytes(serialization.Encoding.PEM)
                   .decode().splitlines()[1:-1])


def keyPem1(pub):
    return ''.join(pub.public_bytes(
        serialization.Encoding.PEM,
        serialization.PublicFormat.SubjectPublicKeyInfo)
        .decode().splitlines()[1:-1])


def amount(cents):
    s = '-' if cents < 0 else ''
    return '%s%d,%02d' % (s, abs(cents) // 100, abs(cents) % 100)


def encCounter(reg, rid, value, size=8, key=KEY):
    iv = hashlib.sha256((reg + rid).encode('utf-8')).digest()[:16]
    e = Cipher(algorithms.AES(key), modes.CTR(iv)).encryptor()
    return e.update(value.to_bytes(size, 'big', signed=True)) + e.finalize()


def payload(rid, tc, cv, cents=(0, 0, 0, 0, 0), reg='REG',
            date='2017-01-01T00:00:00', zda='AT1', serial='11'):
    return '_'.join(['_R1-' + zda, reg, rid, date]
                    + [amount(c) for c in cents] + [b64(tc), serial, b64(cv)])


def sign(text, priv):
    """JWS of a payload text, `priv` None: the device is out of order."""
    head = b64u(b'{"alg":"ES256"}') + '.' + b64u(text.encode('utf-8'))
    if priv is None:
        return head + '.' + b64u(BROKEN.encode())
    r, s = decode_dss_signature(
        priv.sign(head.encode(), ec.ECDSA(hashes.SHA256())))
    return head + '.' + b64u(r.to_bytes(32, 'big') + s.to_bytes(32, 'big'))


class Register(object):
    """Makes the receipts of a register one after the other."""

    def __init__(self, priv, reg='REG', zda='AT1', serial='11', size=8,
                 first=None):
        self.priv, self.reg, self.zda, self.serial = priv, reg, zda, serial
        self.size, self.total, self.last = size, 0, first
        self.date = '2017-01-01T00:00:00'
        self.recs = []

    def add(self, rid, cents=(0, 0, 0, 0, 0), kind=None, broken=False,
            date=None, counter=None, cv=None, reg=None, prev=None, priv=None):
        if date:
            self.date = date
        if kind != 'TRA':
            self.total += sum(cents)
        reg = reg or self.reg
        if kind:
            tc = kind.encode()
        else:
            tc = encCounter(reg, rid,
                            self.total if counter is None else counter,
                            self.size)
        if cv is None:
            cv = chain(prev or self.last or reg)
        jws = sign(payload(rid, tc, cv, cents, reg, self.date, self.zda,
                           self.serial),
                   None if broken else priv or self.priv)
        self.last = jws
        self.recs.append(jws)
        return jws


def dep(*groups):
    """groups: (receipts, certificate or None, chain)"""
    return {'Belege-Gruppe': [{
        'Signaturzertifikat': pem1(c) if c is not None else '',
        'Zertifizierungsstellen': [pem1(x) for x in ch],
        'Belege-kompakt': list(r)} for r, c, ch in groups]}


def keystore(**certs):
    from librksv import key_store
    ks = key_store.KeyStore()
    for k, v in certs.items():
        ks.putKey(k.lstrip('_'), v.public_key(), v)
    return ks


def outcome(fn, *args, **kw):
    """name of the exception raised, or None"""
    try:
        fn(*args, **kw)
        return None
    except Exception as e:
        return type(e).__name__


def expect(cond, what):
    if not cond:
        print('DEMO: ' + what)
        sys.exit(1)


def tool(name, args, stdin='', files=None, cwd=None):
    """runs a command line tool in a scratch directory; returns (status, output,
    errors, {file: text})"""
    import shutil
    import subprocess
    import tempfile
    d = tempfile.mkdtemp(prefix='demo-')
    try:
        for n, t in (files or {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        p = subprocess.run(
            [sys.executable, '-W', 'ignore',
             os.path.join(os.getcwd(), name + '.py')] + list(args),
            input=stdin, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            universal_newlines=True)
        out = {}
        for b, _d, fn in os.walk(d):
            for n in fn:
                with open(os.path.join(b, n)) as f:
                    out[os.path.relpath(os.path.join(b, n), d)] = f.read()
        return p.returncode, p.stdout, p.stderr, out
    finally:
        shutil.rmtree(d)
