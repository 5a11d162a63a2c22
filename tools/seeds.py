"""Definitions of the planted bugs; tools/mkseeds.py writes /verif/seeded."""

VER = 'librksv/verify.py'
REC = 'librksv/receipt.py'
ALG = 'librksv/algorithms.py'
KST = 'librksv/key_store.py'
DEP = 'librksv/depparser.py'
EXP = 'librksv/depexport.py'
STA = 'librksv/verification_state.py'
UTI = 'librksv/utils.py'
CAS = 'librksv/cashreg.py'
URL = 'librksv/url_receipt_helpers.py'
VRE = 'librksv/verify_receipt.py'
SIG = 'librksv/sigsys.py'

SEEDS = {}


def seed(sid, prop, edits, needs, breaks, demo):
    SEEDS[sid] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks,
                      demo=demo)


seed('S01', 'P01', [(REC, '''previousChain = base64.b64encode(previousChain)
        segments[12] = previousChain.decode('utf-8')

        signature = base64''', '''previousChain = base64.urlsafe_b64encode(previousChain)
        segments[12] = previousChain.decode('utf-8')

        signature = base64''')],
     'an OCR code whose chaining value contains + or / in standard Base64',
     'reading the OCR code of such a receipt is refused or yields another '
     'chaining value',
     r'''
from lib import *
from librksv.receipt import Receipt
p = newKey()
for cv in (bytes(8), b'\xfb\xef\xbe\xfb\xef\xbe\xfb\xef', b'\xff' * 8):
    r, pre = Receipt.fromJWSString(sign(payload('1', bytes(8), cv), p))
    r2, pre2 = Receipt.fromOCRCode(r.toOCRCode(pre))
    expect(r2.toJWSString(pre2) == r.toJWSString(pre), 'OCR round trip')
''')

seed('S02', 'P02', [(REC, '''        if len(cv) != alg.chainBytes():
            raise MalformedReceiptException(receipt.receiptId,
                    _('Chaining value \\"{}\\" invalid.').format(previousChain))

        return receipt, algorithmPrefix

    def toBasicCode''', '''        if len(cv) < alg.chainBytes():
            raise MalformedReceiptException(receipt.receiptId,
                    _('Chaining value \\"{}\\" invalid.').format(previousChain))

        return receipt, algorithmPrefix

    def toBasicCode''')],
     'a QR code with a chaining value of more than 8 bytes',
     'a QR, OCR or CSV receipt with an overlong chaining value is accepted',
     r'''
from lib import *
from librksv.receipt import Receipt
for n, ok in ((7, False), (8, True), (9, False), (32, False)):
    t = payload('1', bytes(8), bytes(n)) + '_' + b64(bytes(64))
    o = outcome(Receipt.fromBasicCode, t)
    expect((o is None) == ok, '%d bytes: %s' % (n, o))
''')

seed('S04', 'P04', [(VRE, '''                    pubKey = self.keyStore.getKey(serial)
                    if pubKey:
                        break
''', '''                    pubKey = self.keyStore.getKey(serial) or pubKey
''')],
     'a key store with a certificate under the hexadecimal and another under '
     'the decimal reading of the serial in the receipt',
     'the certificate of the decimal reading is used although the '
     'hexadecimal one is known',
     r'''
from lib import *
from librksv import verify_receipt
p, q = newKey(), newKey()
c1, c2 = newCert(p, 0x12), newCert(q, 12)
ks = keystore(_12=c1, c=c2)
rv = verify_receipt.ReceiptVerifier.fromKeyStore(ks)
good = sign(payload('1', bytes(8), bytes(8), serial='12'), p)
bad = sign(payload('1', bytes(8), bytes(8), serial='12'), q)
expect(outcome(rv.verifyJWS, good) is None, 'good signature refused')
expect(outcome(rv.verifyJWS, bad) == 'InvalidSignatureException', 'wrong key')
''')

seed('S05', 'P05', [(ALG, '''        return int.from_bytes(decCtr, byteorder='big', signed=True)''',
                     '''        return int.from_bytes(decCtr[-8:], byteorder='big', signed=True)''')],
     'a counter of more than 8 bytes whose value does not fit into 8 bytes',
     'the decrypted counter is truncated',
     r'''
from lib import *
from librksv.algorithms import ALGORITHMS
from librksv.receipt import Receipt
a = ALGORITHMS['R1']
r, _p = Receipt.fromJWSString(sign(payload('1', bytes(8), bytes(8)), newKey()))
for size in range(5, 17):
    m = 1 << (8 * size - 1)
    for v in (0, 1, -1, m - 1, -m):
        e = a.encryptTurnoverCounter(r, v, KEY, size)
        expect(len(e) == size, 'size')
        expect(a.decryptTurnoverCounter(r, e, KEY) == v, '%d %d' % (size, v))
''')

seed('S06', 'P06', [(VER, '''                    if turnoverCounter != newC:
''', '''                    if turnoverCounter != newC and not ro.isSignedBroken():
''')],
     'a receipt made during an outage with a wrong turnover counter',
     'the counter of an unsigned receipt is not checked',
     r'''
from lib import *
from librksv import verify
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
for wrong in (False, True):
    r = Register(p)
    r.add('1')
    r.add('2', (100, 0, 0, 0, 0), broken=True, counter=5 if wrong else None)
    r.add('3', broken=True)
    r.add('4')
    o = outcome(verify.verifyDEP, dep((r.recs, None, [])), ks, KEY)
    expect((o is None) == (not wrong), 'outcome %s' % o)
''')

seed('S07', 'P07', [(VER, '''            else:
                verifyChain(ro, prev, algorithm)
''', '''            elif not (prevObj and prevObj.isSignedBroken()
                    and ro.isSignedBroken()):
                verifyChain(ro, prev, algorithm)
''')],
     'two unsigned receipts in a row, the second with a wrong chaining value',
     'removed or altered receipts within an outage go unnoticed',
     r'''
from lib import *
from librksv import verify
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
r = Register(p)
r.add('1')
r.add('2', broken=True, cents=(100, 0, 0, 0, 0))
r.add('3', broken=True, cents=(200, 0, 0, 0, 0))
r.add('4', broken=True, cents=(300, 0, 0, 0, 0))
r.add('5')
d = dep((r.recs, None, []))
expect(outcome(verify.verifyDEP, d, ks, None) is None, 'valid DEP refused')
d = dep((r.recs[:2] + r.recs[3:], None, []))
expect(outcome(verify.verifyDEP, d, ks, None) == 'ChainingException', 'gap')
''')

seed('S08', 'P08', [(VER, '''                if prevObj.isSignedBroken():
''', '''                if prevObj.isSignedBroken() and not prevObj.isDummy():
''')],
     'an outage whose last unsigned receipt is a training receipt',
     'no zero receipt is demanded after such an outage',
     r'''
from lib import *
from librksv import verify
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
for kind in (None, 'TRA', 'STO'):
    for zero in (True, False):
        r = Register(p)
        r.add('1')
        r.add('2', (100, 0, 0, 0, 0), kind, broken=True)
        r.add('3', (100, 0, 0, 0, 0))
        r.add('4', (0 if zero else 100, 0, 0, 0, 0))
        o = outcome(verify.verifyDEP, dep((r.recs, None, [])), ks, KEY)
        w = None if zero else \
            'NoRestoreReceiptAfterSignatureSystemFailureException'
        expect(o == w, '%s %s: %s' % (kind, zero, o))
''')

seed('S09', 'P09', [(VER, '''            if not ro.isNull():
                raise NonzeroTurnover''', '''            if ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE != 0.0:
                raise NonzeroTurnover''')],
     'a start receipt whose amounts cancel each other out',
     'a start receipt with turnover is accepted',
     r'''
from lib import *
from librksv import verify
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
for c in ((0,) * 5, (100, -100, 0, 0, 0), (0, 50, 0, -50, 0), (1, 0, 0, 0, 0)):
    r = Register(p)
    r.add('1', c)
    o = outcome(verify.verifyDEP, dep((r.recs, None, [])), ks, None)
    expect(o == (None if not any(c) else
                 'NonzeroTurnoverOnInitialReceiptException'), str(o))
''')

seed('S10', 'P10', [(STA, '''            self.check(rIds._minId)
''', '''            self.check(rIds._maxId)
''')],
     'the sorted identifier backend, several work packages and a duplicate at '
     'the start of a later package',
     'an identifier used before is accepted if the package goes on with '
     'larger ones',
     r'''
from lib import *
from librksv import depparser, verify
from librksv.verification_state import *
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
for ids, ok in ((('1', '2', '3', '4'), True), (('1', '2', '2', '3'), False),
                (('1', '3', '2', '4'), False)):
    r = Register(p)
    for i in ids:
        r.add(i)
    for chunk, n in ((2, 1), (2, 2), (4, 1), (0, 1)):
        o = outcome(verify.verifyParsedDEP,
                    depparser.DictDEPParser(dep((r.recs, None, []))), ks,
                    None, None, None, None, n, chunk,
                    UsedReceiptIdsSortedNatural)
        expect(o == (None if ok else 'DuplicateReceiptIdException'),
               '%s %d %d %s' % (ids, chunk, n, o))
''')

seed('S11', 'P11', [(VER, '''            if prevObj.dateTime > ro.dateTime:
''', '''            if prevObj.dateTime > ro.dateTime and not ro.isDummy():
''')],
     'a training receipt dated before its predecessor',
     'time may run backwards at training receipts',
     r'''
from lib import *
from librksv import verify
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
for kind in (None, 'TRA', 'STO'):
    for d, ok in (('2017-01-01T10:00:01', True), ('2017-01-01T10:00:00', True),
                  ('2017-01-01T09:59:59', False)):
        r = Register(p)
        r.add('1', date='2017-01-01T10:00:00')
        r.add('2', (100, 0, 0, 0, 0), kind, date=d)
        o = outcome(verify.verifyDEP, dep((r.recs, None, [])), ks, KEY)
        expect(o == (None if ok else 'DecreasingDateException'), str(o))
''')

seed('S14', 'P14', [(STA, '''                self.cashRegisters[registerIdx]), copy.deepcopy(
                        self.usedReceiptIds)''',
                     '''                self.cashRegisters[registerIdx]), copy.copy(
                        self.usedReceiptIds)''')],
     'a verification that fails after some receipts, with the same state '
     'object used again',
     'a failed run leaves the identifiers of its receipts in the state, a '
     'second run with the corrected DEP reports duplicates',
     r'''
from lib import *
from librksv import verify
from librksv.verification_state import ClusterState
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
r = Register(p)
for i in '123':
    r.add(i)
s = ClusterState()
bad = r.recs[:2] + [r.recs[2][:-4] + 'AAAA']
o = outcome(verify.verifyDEP, dep((bad, None, [])), ks, None, s)
expect(o == 'InvalidSignatureException', str(o))
expect(s.writeStateToJson()['usedReceiptIds']['backendData'] == [], 'ids left')
o = outcome(verify.verifyDEP, dep((r.recs, None, [])), ks, None, s, 0)
expect(o is None, str(o))
''')

seed('S16', 'P16', [(STA, '''            dummyLastTC = curTC - int(round((rec.sumA + rec.sumB + rec.sumC
                + rec.sumD + rec.sumE) * 100))''',
                     '''            dummyLastTC = curTC - int((rec.sumA + rec.sumB + rec.sumC
                + rec.sumD + rec.sumE) * 100)''')],
     'resuming at a receipt whose amounts times 100 are not exact in binary '
     '(0,29)',
     'a valid DEP is refused for its counter when resumed there',
     r'''
from lib import *
from librksv import receipt, verify
from librksv.verification_state import ClusterState
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
for c in (0, 100, 29, 57, 115, -29, 1999):
    r = Register(p)
    r.total = 5000
    r.add('7', (c, 0, 0, 0, 0), cv=bytes(8))
    r.add('8', (100, 0, 0, 0, 0))
    rec, pre = receipt.Receipt.fromJWSString(r.recs[0])
    s = ClusterState.fromArbitraryReceipt(rec, pre, KEY)
    o = outcome(verify.verifyDEP, dep((r.recs, None, [])), ks, KEY, s, 0)
    expect(o is None, '%d %s' % (c, o))
''')

seed('S17', 'P17', [(DEP, '''        items = list(ijson.items(self.fd, prefix))
        self.fd.seek(ofs)
''', '''        items = list(ijson.items(self.fd, prefix))
        if chunksize == 0:
            self.fd.seek(ofs)
''')],
     'a DEP larger than the read buffer of the JSON parser whose certificates '
     'follow the receipts',
     'the file parser loses the rest of the file after looking up the '
     'certificates',
     r'''
from lib import *
import io, json
from librksv import depparser
p = newKey()
c = newCert(p, 0x11)
r = Register(p)
for i in range(300):
    r.add('%d' % i)
g = dep((r.recs, c, []))['Belege-Gruppe'][0]
g = dict([(k, g[k]) for k in ('Belege-kompakt', 'Signaturzertifikat',
                              'Zertifizierungsstellen')])
text = json.dumps({'Belege-Gruppe': [g]}).encode()
for n in (0, 50, 299, 1000):
    got = []
    for ch in depparser.FileDEPParser(io.BytesIO(text)).parse(n):
        for recs, cert, chain_ in ch:
            expect(cert == c, 'certificate')
            got += recs
    expect(got == [x.encode() for x in r.recs], 'receipts')
''')

seed('S18', 'P18', [(EXP, '''                    self._outer._backing = itertools.chain(
                            [(rec_tuples, cert, cert_list)],
                            self._outer._backing)
''', '''                    self._outer._backing = itertools.chain(
                            self._outer._backing,
                            [(rec_tuples, cert, cert_list)])
''')],
     'merging at least three groups, the first two of which differ in their '
     'certificate',
     'groups change their order when merged',
     r'''
from lib import *
from librksv.depexport import MergingDEPStream
p = newKey()
a, b = newCert(p, 1), newCert(p, 2)
for groups in ([([1], a, []), ([2], b, []), ([3], b, []), ([4], a, [])],
               [([1], a, []), ([2], a, [b]), ([3], a, []), ([4], b, [])]):
    got = []
    for recs, c, ch in MergingDEPStream(iter(groups)):
        got += [(x, c, ch) for x in recs]
    expect(got == [(x, c, ch) for r, c, ch in groups for x in r], str(got))
''')

seed('S19', 'P19', [(KST, '''                keyId = certIds[0]
''', '''                keyId = certIds[-1]
''')],
     'a stored certificate whose hexadecimal serial consists of decimal '
     'digits only',
     'after writing and reading the store the certificate is found under '
     'another identifier',
     r'''
from lib import *
from librksv.key_store import KeyStore
p = newKey()
for serial in (0x1a, 0x10, 0x99, 5):
    c = newCert(p, serial)
    ks = KeyStore()
    ks.putKey('%x' % serial, c.public_key(), c)
    ks2 = KeyStore.readStoreFromJson(ks.writeStoreToJson(None))
    expect(list(ks2.getKeyIds()) == ['%x' % serial], '%x' % serial)
    expect(ks2.getCert('%x' % serial) == c, '%x' % serial)
''')

seed('S20', 'P20', [(URL, '''    return matches[-1]
''', '''    return matches[0]
''')],
     'a URL without fragment that has more than one stand-alone token of 11 '
     'characters',
     'the wrong token is taken as hash',
     r'''
from lib import *
from librksv.url_receipt_helpers import getURLHashFromURL as f
expect(f('http://a.at/abcdefghijk') == 'abcdefghijk', 'one')
expect(f('http://a.at/abcdefghijk?h=ABCDEFGH-_1') == 'ABCDEFGH-_1', 'two')
expect(f('http://a.at/abcdefghijk#x') == 'x', 'fragment')
''')

seed('S22', 'P22', [(VER, '''        self._initargs = (rec, recPrev)
''', '''        self._initargs = (rec,)
''')],
     'a chaining error that is raised in a worker process',
     'the message of the error changes on its way to the parent process',
     r'''
from lib import *
import pickle
from librksv import verify
e = verify.ChainingException('rec', 'AAAA')
f = pickle.loads(pickle.dumps(e))
expect(type(f) is type(e) and str(f) == str(e) and f.receipt == e.receipt,
       str(f))
''')

seed('S23', 'P23', [(REC, '''        return decCtr == b'TRA'
''', '''        return decCtr.startswith(b'TRA')
''')],
     'a turnover counter whose encrypted bytes begin with TRA',
     'a normal receipt is taken for a training receipt',
     r'''
from lib import *
from librksv.receipt import Receipt
p = newKey()
for tc, w in ((b'TRA', True), (b'TRAAAAAA', False), (b'STO', False),
              (bytes(8), False), (b'TRA12', False)):
    r, _p = Receipt.fromJWSString(sign(payload('1', tc, bytes(8)), p))
    expect(r.isDummy() == w, str(tc))
    expect(r.isReversal() == (tc == b'STO'), str(tc))
''')

seed('S26', 'P26', [(VER, '''    recsPerProc = int(ceil(float(len(recsWithVerifiers)) / nprocs))
''', '''    recsPerProc = max(1, len(recsWithVerifiers) // nprocs)
''')],
     'a number of receipts that is not a multiple of the number of processes',
     'more packages than requested are created',
     r'''
from lib import *
from librksv.verify import balanceGroupsWithVerifiers as f
for n in range(1, 9):
    for k in range(1, 12):
        recs = [str(i) for i in range(k)]
        g = [(recs[:k // 2], 'A'), (recs[k // 2:], 'B')]
        pk = f(g, n)
        expect(len(pk) <= n, '%d of %d' % (len(pk), n))
        expect([(x, v) for q in pk for r, v in q for x in r]
               == [(x, v) for r, v in g for x in r], 'receipts')
''')

seed('S27', 'P27', [(DEP, '''        ofs = self.fd.tell()
        self.fd.seek(self.startpos)
''', '''        ofs = self.fd.tell()
        self.fd.seek(0)
''')],
     'a DEP file with byte order mark whose certificates follow the receipts '
     'of a chunk boundary',
     'the file is refused because of its byte order mark',
     r'''
from lib import *
import codecs, io, json
from librksv import depparser
p = newKey()
c = newCert(p, 0x11)
g = dep((['a', 'b', 'c'], c, []))['Belege-Gruppe'][0]
g = dict([(k, g[k]) for k in ('Belege-kompakt', 'Signaturzertifikat',
                              'Zertifizierungsstellen')])
text = json.dumps({'Belege-Gruppe': [g]}).encode()
for bom in (b'', codecs.BOM_UTF8):
    for n in (0, 1, 2):
        got = []
        for ch in depparser.FileDEPParser(io.BytesIO(bom + text)).parse(n):
            for recs, cert, _c in ch:
                expect(cert == c, 'certificate')
                got += recs
        expect(got == [b'a', b'b', b'c'], 'receipts')
''')

seed('S03', 'P03', [(REC, '''        if algorithmPrefix not in algorithms.ALGORITHMS:
            raise UnknownAlgorithmException(basicCode)
''', '''        if not algorithmPrefix.startswith('R'):
            raise UnknownAlgorithmException(basicCode)
''')],
     'a QR, OCR or CSV receipt with a well-formed unknown algorithm (R2)',
     'KeyError escapes instead of a receipt error',
     r'''
from lib import *
from librksv.receipt import Receipt, ReceiptException
for a in ('R1', 'R2', 'R10'):
    t = payload('1', bytes(8), bytes(8)).replace('_R1-', '_%s-' % a)
    t += '_' + b64(bytes(64))
    try:
        Receipt.fromBasicCode(t)
    except ReceiptException:
        expect(a != 'R1', 'refused')
''')

seed('S12', 'P12', [(VER, '''    ksCert = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
    if ksCert:
        if utils.certFingerprint(ksCert) != utils.certFingerprint(prev):
''', '''    ksCert = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
    if ksCert:
        if prev is cert and utils.certFingerprint(ksCert) != utils.certFingerprint(prev):
''')],
     'a group whose chain ends in a certificate with the serial of a trusted '
     'one that is not the trusted certificate',
     'anybody can make a trusted group certificate by reusing the serial of a '
     'trusted certificate for the last certificate of the chain',
     r'''
from lib import *
from librksv import verify
p, ca, evil = newKey(), newKey(), newKey()
caC, evilC = newCert(ca, 0x99), newCert(evil, 0x99)
ks = keystore(_99=caC)
expect(outcome(verify.verifyCert, newCert(p, 0x11, ca), [caC], ks) is None,
       'trusted')
expect(outcome(verify.verifyCert, newCert(p, 0x11, evil), [evilC], ks)
       == 'CertificateSerialCollisionException', 'collision')
''')

seed('S15', 'P15', [(STA, '''        if len(group) == 1:
            secondToLastReceiptJWS = self.lastReceiptJWS
''', '''        if len(group) == 1:
            secondToLastReceiptJWS = self.startReceiptJWS
''')],
     'a group of a single receipt with turnover after a state that ends with '
     'an unsigned receipt',
     'updating the state misses the outstanding zero receipt',
     r'''
from lib import *
from librksv import verify, verify_receipt
from librksv.verification_state import *
p = newKey()
ks = keystore(_11=newCert(p, 0x11))
rv = verify_receipt.ReceiptVerifier.fromKeyStore(ks)
for kind in (None, 'TRA', 'STO'):
    for c in (0, 100):
        r = Register(p)
        r.add('1')
        r.add('2', broken=True)
        r.add('3', (c, 0, 0, 0, 0), kind)
        g = [x.encode() for x in r.recs]
        a, u = CashRegisterState(), UsedReceiptIdsUnique()
        b = CashRegisterState()
        for q in (g[:2], g[2:]):
            a, u = verify.verifyGroup(q, rv, KEY, None, a, u)
            b = CashRegisterState.fromDEPGroup(b, q, KEY)
        expect(a == b, '%s %d' % (kind, c))
''')

seed('S24', 'P24', [(STA, '''        if (len(self.cashRegisters) > 0 and not
                self.cashRegisters[-1].startReceiptJWS):''',
                     '''        if (len(self.cashRegisters) > 1 and not
                self.cashRegisters[-1].startReceiptJWS):''')],
     'a second register added while the first one has no start receipt '
     '(empty, or resumed at an arbitrary receipt)',
     'the second register is anchored to nothing',
     r'''
from lib import *
from librksv.verification_state import *
s = ClusterState()
_p, r, u = s.getCashRegisterInfo(None)
expect(outcome(s.getCashRegisterInfo, None)
       == 'NoStartReceiptForLastCashRegisterException', 'first')
r.startReceiptJWS = 'start'
s.updateCashRegisterInfo(None, r, u)
expect(s.getCashRegisterInfo(None)[0] == 'start', 'anchor')
expect(outcome(s.getCashRegisterInfo, 2)
       == 'NoStartReceiptForLastCashRegisterException', 'second')
''')

seed('S21', 'P21', [(CAS, '''        self.turnoverCounter = int(turnoverCounter)
''', '''        self.turnoverCounter = int(float(turnoverCounter))
''')],
     'a register that is continued at a running total of more than 2^53 cents '
     '(counters have up to 16 bytes)',
     'the counter of the cash register loses cents',
     r'''
from lib import *
import datetime as dt
from librksv import cashreg, sigsys
from cryptography.hazmat.primitives import serialization as S
p = newKey()
pem = p.private_bytes(S.Encoding.PEM, S.PrivateFormat.PKCS8, S.NoEncryption())
for total in (0, 10 ** 6, 2 ** 52 + 1, 2 ** 55 + 1, -2 ** 55 - 1):
    ss = sigsys.SignatureSystemWorking('AT1', '11', pem)
    d = dt.datetime(2017, 1, 1)
    reg = cashreg.CashRegister('R', 'a.b.c', total, KEY)
    reg.receipt('R1', '2', d, 1.0, 0.0, 0.0, 0.0, 0.01, ss)
    expect(reg.turnoverCounter == total + 101, '%d' % total)
''')

seed('S13', 'P13', [(VER, '''        for recs, cert, chain in chunk:
            if not cert:
                raise NoCertificateGivenException()
            verifyCert(cert, chain, keyStore)
            rv = verify''', '''        checked = set()
        for recs, cert, chain in chunk:
            if not cert:
                raise NoCertificateGivenException()
            if cert.serial_number not in checked:
                verifyCert(cert, chain, keyStore)
                checked.add(cert.serial_number)
            rv = verify''')],
     'two groups in one chunk whose certificates differ but have the same '
     'serial',
     'the second certificate is taken as trusted, but only if both groups '
     'are in one chunk',
     r'''
from lib import *
from librksv import depparser, verify
p, q = newKey(), newKey()
c, evil = newCert(p, 0x11), newCert(q, 0x11)
ks = keystore(_11=c)
for other, cert in ((p, c), (q, evil)):
    r = Register(p)
    r.add('1')
    r.add('2')
    r.add('3', priv=other)
    d = dep((r.recs[:2], c, []), (r.recs[2:], cert, []))
    for chunk, n in ((0, 1), (1, 1), (1, 2), (2, 2), (3, 2), (3, 1)):
        o = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(d), ks,
                    KEY, None, None, None, n, chunk)
        expect(o == (None if cert is c else
                     'CertificateSerialCollisionException'),
               '%d %d %s' % (chunk, n, o))
''')

seed('S25', 'P25', [('verify.py', '''                state = verifyParsedDEP(parser, keyStore, key, state, registerIdx,
                        pool, nprocs, chunksize)
''', '''                state = verifyParsedDEP(parser, keyStore, key, state,
                        registerIdx or None, pool, nprocs, chunksize)
''')],
     'a DEP continued at register 0 by its index, with more than one process',
     'the DEP of register 0 is verified and recorded as one of a new register',
     r'''
from lib import *
import json
p = newKey()
c = newCert(p, 0x11)
r = Register(p)
r.add('1')
r.add('2', (100, 0, 0, 0, 0))
r.add('3', (50, 0, 0, 0, 0))
ks = keystore(_11=c)
files = {'ks': json.dumps(ks.writeStoreToJson(b64(KEY))),
         'a': json.dumps(dep((r.recs[:2], c, []))),
         'b': json.dumps(dep((r.recs[2:], c, [])))}
empty = tool('verify', ['state'])[1]
for par in ([], ['par', '2']):
    st = tool('verify', ['state'] + par + ['ks', 'a'], empty, files)
    expect(st[0] == 0, 'first part')
    st = tool('verify', ['state', '0'] + par + ['ks', 'b'], st[1], files)
    expect(st[0] == 0, 'second part %s %s' % (par, st[2][-300:]))
    n = json.loads(st[1])['cashRegisters']
    expect(len(n) == 1 and n[0]['lastTurnoverCounter'] == 150, 'state')
''')

seed('S28', 'P28', [('verification_state.py', '''            sys.argv[3])].lastTurnoverCounter = int(sys.argv[4])
''', '''            sys.argv[3])].lastTurnoverCounter = int(float(sys.argv[4]))
''')],
     'a turnover of more than 2^53 cents (counters have up to 16 bytes)',
     'setLastTurnoverCounter stores another turnover',
     r'''
from lib import *
import json
st = tool('verification_state', ['s', 'create'])[3]
st = tool('verification_state', ['s', 'addCashRegister'], '', st)[3]
for n in (0, -5, 2 ** 53 - 1, 2 ** 53 + 1, -2 ** 62 - 1):
    o = tool('verification_state', ['s', 'setLastTurnoverCounter', '0',
                                    str(n)], '', st)[3]
    expect(json.loads(o['s'])['cashRegisters'][0]['lastTurnoverCounter'] == n,
           str(n))
''')

seed('S29', 'P29', [('split.py', '''        with open('dep-export{}.json'.format(i), 'w') as f:
''', '''        with open('dep-export{}.json'.format(i), 'a') as f:
''')],
     'an output directory that contains the parts of an earlier run',
     'the parts are no DEPs any more',
     r'''
from lib import *
import json
p = newKey()
c = newCert(p, 0x11)
r = Register(p)
r.add('1')
r.add('2', (100, 0, 0, 0, 0))
d = dep((r.recs, c, []))
files = {}
for i in range(2):
    o = tool('split', ['1', 'out'], json.dumps(d), files)
    files = o[3]
    got = []
    for n in range(2):
        try:
            x = json.loads(files['out/dep-export%d.json' % n])
        except Exception as e:
            expect(False, 'run %d: %s' % (i, e))
        for g in x['Belege-Gruppe']:
            got += g['Belege-kompakt']
    expect(got == r.recs, 'receipts')
''')

seed('S30', 'P30', [('key_store.py', '''        b64Key = base64.b64encode(symmetricKey).decode('utf-8')

    data''', '''        b64Key = base64.urlsafe_b64encode(symmetricKey).decode('utf-8')

    data''')],
     'a symmetric key whose Base64 text has a + or /',
     'any change of the key store replaces the symmetric key by an unusable '
     'one',
     r'''
from lib import *
for k in (KEY, bytes(32), b'\xfb' * 32, b'\xff' * 32):
    st = tool('key_store', ['ks', 'create'])[3]
    o = tool('key_store', ['ks', 'setSymmetricKey'], b64(k) + '\n', st)
    st = o[3]
    st['cert'] = '-----BEGIN CERTIFICATE-----\n%s\n-----END CERTIFICATE-----\n' % (
        pem1(newCert(newKey(), 0x11)))
    o = tool('key_store', ['ks', 'add', 'cert'], '', st)
    expect(o[0] == 0, o[2][-300:])
    o = tool('key_store', ['ks', 'showSymmetricKey'], '', o[3])
    expect(o[1].strip() == b64(k), 'key %s' % o[1])
''')

seed('S31', 'P31', [('verify_receipt.py', '''    for r in recs:
        try:
            ver(r)
        except receipt.ReceiptException as e:
''', '''    known = set()
    for r in recs:
        try:
            # the same receipt again
            if r.split('.')[-1] in known:
                idx += 1
                continue
            ver(r)
            known.add(r.split('.')[-1])
        except receipt.ReceiptException as e:
''')],
     'an altered receipt in JWS format behind the original one, with the '
     'signature of the original',
     'the altered receipt is counted as verified',
     r'''
from lib import *
import json
p = newKey()
c = newCert(p, 0x11)
a = sign(payload('1', bytes(8), bytes(8), (100, 0, 0, 0, 0)), p)
b = sign(payload('1', bytes(8), bytes(8), (200, 0, 0, 0, 0)), p)
forged = b.rsplit('.', 1)[0] + '.' + a.rsplit('.', 1)[1]
files = {'ks': json.dumps(keystore(_11=c).writeStoreToJson(None))}
for lines, n in (([a, b], 2), ([forged, a], 1), ([a, forged], 1)):
    o = tool('verify_receipt', ['jws', 'ks'], '\n'.join(lines) + '\n', files)
    expect('%d of 2 ' % n in o[1], o[1])
''')

seed('S32', 'P32', [('demo.py', '''        sumB = round(random.uniform(-1000, 1000), 2)
        sumC = round(random.uniform(-1000, 1000), 2)
''', '''        sumB = round(random.uniform(-1000, 1000), 3)
        sumC = round(random.uniform(-1000, 1000), 3)
''')],
     'a receipt with two amounts whose fractions of a cent together change '
     'the rounded sum of all five',
     'the generated DEP does not verify: its turnover counters differ from '
     'the amounts',
     r'''
from lib import *
import json, random
from cryptography.hazmat.primitives import serialization as S
from librksv import key_store, verify
p = newKey()
pem = p.private_bytes(S.Encoding.PEM, S.PrivateFormat.TraditionalOpenSSL,
                      S.NoEncryption()).decode()
cert = newCert(p, 0x11)
files = {'priv': pem, 'cert': cert.public_bytes(S.Encoding.PEM).decode(),
         'aes': b64(KEY)}
ks = keystore(_11=cert)
random.seed(1)
for n in (1, 2, 40):
    o = tool('demo', ['priv', 'cert', 'aes', str(n)], '', files)
    d = json.loads(o[1])
    expect(sum(len(g['Belege-kompakt']) for g in d['Belege-Gruppe']) == n,
           'number of receipts')
    verify.verifyDEP(d, ks, KEY)
''')

seed('S34', 'P34', [(SIG, '''        except requests.exceptions.RequestException as e:
''', '''        except requests.exceptions.ConnectionError as e:
''')],
     'a signing service that answers with an error status or too late',
     'the sale cannot be recorded at all instead of being recorded as '
     'unsigned',
     r'''
from lib import *
import requests
from librksv import algorithms, sigsys
E = requests.exceptions
fault = None


class R(object):
    def raise_for_status(self):
        if fault == 'status':
            raise E.HTTPError('500')

    def json(self):
        if fault == 'json':
            raise E.JSONDecodeError('no JSON', '', 0)
        return {'ZertifikatsseriennummerHex': '11', 'alg': 'ES256',
                'zdaid': 'AT1', 'result': 'a.b.c'}


def ask(*a, **k):
    if isinstance(fault, type):
        raise fault('x')
    return R()


requests.get = requests.post = ask
s = sigsys.SignatureSystemATrustMobile('u', 'p')
alg = algorithms.ALGORITHMS['R1']
expect(s.sign('x', alg) == 'a.b.c', 'signature')
for fault in (E.ConnectionError, E.ReadTimeout, E.ConnectTimeout, 'status',
              'json', E.SSLError):
    try:
        r = s.sign('x', alg)
    except Exception as e:
        expect(False, '%s escapes' % type(e))
    expect(r.split('.')[2] == b64u(BROKEN.encode()), 'mark')
''')

seed('S33', 'P33', [('rktool.py', '''        self.verifyAbort()
        if not self.updateDEPDisplay():
''', '''        # nothing needs to be stopped if nothing is running
        if self._verifying:
            self.verifyAbort()
        self.verify_button.disabled = False
        self.verify_button.text = _('Verify')
        self.verify_button.background_color = (1, 1, 1, 1)
        if not self.updateDEPDisplay():
''')],
     'a DEP that was verified, then another DEP that is loaded, of which a '
     'receipt is opened',
     'receipts of a DEP that was never verified are shown as correctly signed',
     r'''
from lib import *
import json
import tempfile
import types


class Any(object):
    text = ''
    disabled = False
    state = 'normal'

    def __init__(self, *a, **kw):
        self.nodes = []
        self.kids = []
        self.__dict__.update(kw)
        self.init()

    def init(self):
        pass

    def add_widget(self, w):
        self.kids.append(w)

    def bind(self, **kw):
        pass

    def open(self):
        shown.append(self)

    def dismiss(self, *a):
        pass


class Tree(Any):
    def init(self):
        self.root = Any()

    def add_node(self, n, parent=None):
        (parent or self.root).nodes.append(n)
        n.up = parent or self.root
        return n

    def remove_node(self, n):
        if n is not self.root and n in n.up.nodes:
            n.up.nodes.remove(n)

    def iterate_all_nodes(self):
        todo = [self.root]
        while todo:
            n = todo.pop()
            todo += n.nodes
            yield n


class App(Any):
    @staticmethod
    def get_running_app():
        return app


class Clock(object):
    @staticmethod
    def schedule_once(f, t=0):
        f(t)


class Pool(object):
    def apply_async(self, f, args, callback=None):
        callback(f(*args))

    def map_async(self, f, items, callback=None):
        callback([f(x) for x in items])


def mod(name, **kw):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(kw)


def prop(*a, **k):
    return None


shown = []
mod('kivy', require=prop)
for n, names in (('adapters', ''), ('adapters.dictadapter', 'DictAdapter'),
                 ('core', ''), ('core.window', 'Window'), ('uix', ''),
                 ('uix.boxlayout', 'BoxLayout'), ('uix.button', 'Button'),
                 ('uix.floatlayout', 'FloatLayout'),
                 ('uix.gridlayout', 'GridLayout'),
                 ('uix.listview', 'CompositeListItem ListItemButton '
                  'ListItemLabel'), ('uix.modalview', 'ModalView'),
                 ('uix.popup', 'Popup'),
                 ('uix.treeview', 'TreeView TreeViewLabel')):
    mod('kivy.' + n, **dict((x, type(x, (Any,), {})) for x in names.split()))
sys.modules['kivy.uix.treeview'].TreeViewNode = type('N', (object,), {})
mod('kivy.uix.selectableview', SelectableView=type('S', (object,), {}))
sys.modules['kivy.core.window'].Window = Any(
    height=9, keyboard_height=0, children=[])
mod('kivy.app', App=App)
mod('kivy.clock', mainthread=lambda f: f, Clock=Clock)
mod('kivy.properties', ObjectProperty=prop, DictProperty=prop)
mod('kivy.utils', platform='linux')
mod('img_decode')
mod('PIL', Image=Any())
import builtins
builtins._ = lambda s: s
import rktool
p = newKey()
c = newCert(p, 0x11)
app = Any(pool=Pool(), keyStore=keystore(_11=c), nprocs=2, curSearchPath='.',
          killBackgroundProcesses=lambda: None)
d = tempfile.mkdtemp(prefix='demo-')
try:
    for name, q in (('good', p), ('bad', newKey())):
        r = Register(p)
        r.add('1')
        r.add('2', priv=q)
        with open(os.path.join(d, name), 'w') as f:
            json.dump(dep((r.recs, c, [])), f)
    for verified in (False, True):
        w = rktool.VerifyDEPWidget.__new__(rktool.VerifyDEPWidget)
        w.verify_button, w.aesInput, w.treeView = Any(), Any(), Tree()
        w._popup = Any()
        rktool.VerifyDEPWidget.__init__(w)
        w.loadDEPCb(d, ['good'])
        if verified:
            w.verify()
            expect(w.verify_button.text == 'Valid DEP', 'good')
        w.loadDEPCb(d, ['bad'])
        expect(w.verify_button.text == 'Verify', 'reset')
        rktool.ViewReceiptWidget.verify_button = Any(text='Verify')
        rktool.ViewReceiptWidget.decrypt_button = Any()
        rktool.ViewReceiptWidget.aes_input = Any()
        w.viewReceipt(Any(group_id=0, receipt_id=1))
        expect(rktool.ViewReceiptWidget.verify_button.text == 'Verify',
               'the forged receipt is shown as valid')
finally:
    import shutil
    shutil.rmtree(d)
''')

seed('S35', 'P35', [('img_decode.py', '''        image = image.convert('L')
        width, height = image.size

        raw = img_to_bytes(image)
        zimg = zbar.Image''', '''        if image.mode in ('RGB', 'RGBA'):
            image = image.convert('L')
        width, height = image.size

        raw = img_to_bytes(image)
        zimg = zbar.Image''')],
     'an image with a palette (a GIF or a small PNG)',
     'the decoder is given palette indices instead of grey values and finds '
     'nothing',
     r'''
import io, os, sys, types
sys.path.insert(0, os.getcwd())
from PIL import Image


class ZImage(object):
    def __init__(self, w, h, f, raw):
        self.key = w, h, f, raw
        self.syms = []

    def __iter__(self):
        return iter(self.syms)


class Sym(object):
    type, data = 'QRCODE', 'x'


class Scanner(object):
    def scan(self, z):
        z.syms = [Sym()] if z.key == want else []


m = types.ModuleType('zbar')
m.Image, m.ImageScanner = ZImage, Scanner
sys.modules['zbar'] = m
import img_decode
for mode in ('RGB', 'L', 'RGBA', 'P', '1'):
    img = Image.new('RGB', (3, 2))
    img.putdata([(255, 255, 255), (0, 0, 0), (0, 0, 0), (255, 255, 255),
                 (0, 0, 0), (255, 255, 255)])
    img = img.convert(mode)
    want = 3, 2, 'Y800', img.convert('L').tobytes()
    if img_decode.read_qr_codes(img) != ['x']:
        print('nothing found in mode', mode)
        sys.exit(1)
''')

seed('S36', 'P29', [('merge.py', '''IncrementalDEPParser.fromFd(f, True)''',
                     '''IncrementalDEPParser.fromFd(f, False)''')],
     'a file whose certificates come after its receipts and with more '
     'receipts than one chunk',
     'the merged DEP has groups without certificates',
     r'''
from lib import *
import json
p = newKey()
c = newCert(p, 0x11)
r = Register(p)
r.add('1')
r.add('2', (100, 0, 0, 0, 0))
r.add('3', (100, 0, 0, 0, 0))
for back in (False, True):
    d = dep((r.recs, c, []))
    g = d['Belege-Gruppe'][0]
    ks = sorted(g, key=lambda k: (k == 'Belege-kompakt') == back)
    d['Belege-Gruppe'] = [dict((k, g[k]) for k in ks)]
    files = {'a.json': json.dumps(d), 'b.json': json.dumps(d)}
    os.environ['RKSV_DEP_CHUNKSIZE'] = '1'
    o = tool('merge', ['a.json', 'b.json'], '', files)
    x = json.loads(o[1])
    got = []
    for y in x['Belege-Gruppe']:
        expect(y['Signaturzertifikat'] == g['Signaturzertifikat'], 'cert')
        got += y['Belege-kompakt']
    expect(got == r.recs * 2, 'receipts')
''')

seed('S37', 'P05', [(ALG, '''        iv = utils.sha256(receipt.registerId.encode("utf-8")
                + receipt.receiptId.encode("utf-8"))[0:16]
        decCtr =''', '''        iv = self._ivs.get(receipt.receiptId)
        if iv is None:
            iv = utils.sha256(receipt.registerId.encode("utf-8")
                    + receipt.receiptId.encode("utf-8"))[0:16]
            self._ivs[receipt.receiptId] = iv
        decCtr ='''), (ALG, '''class R1(AlgorithmI):
''', '''class R1(AlgorithmI):
    _ivs = {}

''')],
     'two registers with the same receipt identifiers in one process',
     'the counter of the second register is decrypted with the initialisation '
     'vector of the first',
     r'''
from lib import *
from librksv import verify, verification_state
p = newKey()
for reg in ('REG-1', 'REG-2'):
    r = Register(p, reg=reg)
    r.add('1')
    r.add('2', (100, 0, 0, 0, 0))
    cert = newCert(p, 0x11)
    ks = keystore(_11=cert)
    expect(outcome(verify.verifyDEP, dep((r.recs, cert, [])), ks, KEY) is None,
           reg)
''')

NOTES = dict(
    S03='yes, after P03 got the case `alter`',
    S10='yes, after the merge sizes of P10 were extended',
    S17='yes, after P17 got files that deliver few bytes at a time',
    S21='yes, after P21 got the case `huge`',
    S27='yes, after P27 got DEPs with all orders of elements')
