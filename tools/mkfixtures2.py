"""Appends odd certificates to harness/fixdata.py (run once after mkfixtures.py)."""
import sys, os, base64, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives import serialization as S, hashes
from cryptography.hazmat.primitives.asymmetric import ed25519
from cryptography.hazmat.backends import default_backend as be
from harness import fixdata
PRIV = {n: S.load_pem_private_key(k.encode(), None, be()) for n, k in fixdata.KEYS.items()}
CERT = {n: x509.load_pem_x509_certificate(k.encode(), be()) for n, k in fixdata.CERTS.items()}
n = lambda s: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s)])
def mk(subj, pub, serial, key, alg):
    return (x509.CertificateBuilder().subject_name(n(subj)).issuer_name(n('int')).public_key(pub).serial_number(serial)
            .not_valid_before(datetime.datetime(2015, 1, 1)).not_valid_after(datetime.datetime(2045, 1, 1)).sign(key, alg, be()))
b = lambda d: base64.b64encode(d).decode()
der = CERT['LEAF'].public_bytes(S.Encoding.DER)
ed = ed25519.Ed25519PrivateKey.generate()
pub = PRIV['A'].public_key()
spki = pub.public_bytes(S.Encoding.DER, S.PublicFormat.SubjectPublicKeyInfo)
oid, bad = bytes.fromhex('06072a8648ce3d0201'), bytes.fromhex('06072a8648ce3d0209')
sig, badsig = bytes.fromhex('06082a8648ce3d040302'), bytes.fromhex('06082a8648ce3d040377')
X = dict(
    UNKSIG=b(der.replace(sig, badsig)),                                   # unknown signature algorithm
    EDSIG=b(mk('leaf', pub, 0x2f5a81, ed, None).public_bytes(S.Encoding.DER)),   # signed with Ed25519
    EDKEY=b(mk('leaf', ed.public_key(), 0x2f5a81, PRIV['I'], hashes.SHA256()).public_bytes(S.Encoding.DER)),
    EDROOT=b(mk('int', ed.public_key(), 0x77, ed, None).public_bytes(S.Encoding.DER)),
    BADKEY=b(der.replace(oid, bad)),                                      # key of an unknown type
    BADPUB=b(spki.replace(oid, bad)),
    EDPUB=b(ed.public_key().public_bytes(S.Encoding.DER, S.PublicFormat.SubjectPublicKeyInfo)),
)
with open(fixdata.__file__, 'a') as f:
    f.write('EXTRA = {\n')
    for k, v in X.items():
        f.write('    %r: %r,\n' % (k, v))
    f.write('}\n')
