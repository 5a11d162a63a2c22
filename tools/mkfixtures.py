"""Generates harness/fixdata.py (run once; the result is committed)."""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from cryptography.hazmat.backends import default_backend as be

def key():
    return ec.generate_private_key(ec.SECP256R1(), be())

def cert(subj, pub, serial, issuer, ikey):
    n = lambda s: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s)])
    return (x509.CertificateBuilder().subject_name(n(subj)).issuer_name(n(issuer)).public_key(pub)
            .serial_number(serial).not_valid_before(datetime.datetime(2015, 1, 1))
            .not_valid_after(datetime.datetime(2045, 1, 1)).sign(ikey, hashes.SHA256(), be()))

ks = {n: key() for n in ('A', 'B', 'C', 'I', 'R')}
rk = rsa.generate_private_key(65537, 2048, be())
pub = lambda n: ks[n].public_key()
certs = {
    'ROOT': cert('root', pub('R'), 0xab01, 'root', ks['R']),
    'INT': cert('int', pub('I'), 0x77, 'root', ks['R']),
    'LEAF': cert('leaf', pub('A'), 0x2f5a81, 'int', ks['I']),          # has letters in hex
    'LEAFB': cert('leafb', pub('B'), 0x1234, 'int', ks['I']),          # decimal 4660
    'LEAFC': cert('leafc', pub('C'), 0x4660, 'int', ks['I']),          # hex 4660
    'FAKE': cert('leaf', pub('C'), 0x2f5a81, 'leaf', ks['C']),         # serial of LEAF, other key
    'FAKEINT': cert('int', pub('C'), 0x77, 'int', ks['C']),            # serial of INT
    'RSAROOT': cert('rsaroot', rk.public_key(), 0xcc02, 'rsaroot', rk),
    'RSALEAF': cert('rsaleaf', pub('A'), 0x99, 'rsaroot', rk),
}
out = ['"""Fixtures (generated by tools/mkfixtures.py)."""', 'KEYS = {']
for n, k in ks.items():
    out.append('    %r: """%s""",' % (n, k.private_bytes(serialization.Encoding.PEM,
        serialization.PrivateFormat.TraditionalOpenSSL, serialization.NoEncryption()).decode()))
out.append('}\nPUBS = {')
for n in ks:
    out.append('    %r: """%s""",' % (n, pub(n).public_bytes(serialization.Encoding.PEM,
        serialization.PublicFormat.SubjectPublicKeyInfo).decode()))
out.append('}\nCERTS = {')
for n, c in certs.items():
    out.append('    %r: """%s""",' % (n, c.public_bytes(serialization.Encoding.PEM).decode()))
out.append('}')
open('/verif/harness/fixdata.py', 'w').write('\n'.join(out) + '\n')
