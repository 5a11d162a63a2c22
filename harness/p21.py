"""P21 Receipts produced by the cash register always verify."""
import datetime, json
from cryptography.hazmat.primitives.serialization import Encoding, PrivateFormat, NoEncryption
from librksv import cashreg, sigsys, verify, verification_state, receipt, depexport, verify_receipt
from . import common as c, dep

VS = verification_state
PEM = c.PRIV['A'].private_bytes(Encoding.PEM, PrivateFormat.TraditionalOpenSSL, NoEncryption()).decode('ascii')
T0 = datetime.datetime(2017, 3, 1, 23, 59, 58)


class Register(object):
    """a register in use: what it prints and what it should have counted"""

    def __init__(self, env, reg, last, start, size, zda='AT1', serial='2f5a81', pem=False):
        self.env = env
        self.reg = cashreg.CashRegister(reg, last, start, c.KEY, size)
        self.working = sigsys.SignatureSystemWorking(zda, serial, PEM if pem else c.PRIV['A'])
        self.broken = sigsys.SignatureSystemBroken(zda, serial)
        self.total = start
        self.n = 0
        self.jws = []
        self.dup = []

    def receipt(self, sums, sig='w', kind='N', rid=None, step=1):
        self.n += 1
        t = T0 + datetime.timedelta(seconds=self.n * step)
        r = self.reg.receipt('R1', rid if rid is not None else 'r%d' % self.n, t, *([x / 100 for x in sums] + [
            self.working if sig == 'w' else self.broken, kind == 'T', kind == 'S']))
        if kind != 'T':
            self.total = self.total + sum(sums)
        self.jws.append(r.toJWSString('R1'))
        self.env.check(self.jws[-1] == self.reg.lastReceiptSig, 'the register remembers its last receipt')
        self.env.check(self.reg.turnoverCounter == self.total, 'the register counts the amounts exactly')
        return r


def amounts(env, name, wide, where=None):
    k = env.choose(name + 'where', [0, 1, 2, 3, 4] if wide else [0, 3]) if where is None else where
    v = [0] * 5
    v[k] = env.int(name, -99999 if wide else -40, 99999 if wide else 40)
    if (where is None or where == 1) and env.choose(name + 'more', [False, True]):
        v[(k + 1) % 5] = 1999
        v[(k + 2) % 5] = -5
    return v


def outcome(env, r, run, label='produced receipts verify'):
    try:
        st = run()
    except Exception:
        env.fail(label)
        return
    env.check(st.lastTurnoverCounter == r.reg.turnoverCounter, 'the final state has the counter of the register')
    env.check(st.lastReceiptJWS == r.reg.lastReceiptSig, 'the final state has the last receipt')
    env.check(st.needRestoreReceipt == False, 'no zero receipt is outstanding')


def sequence(env, r, n, wide):
    """n receipts of any kind; outages end with a zero receipt"""
    out = False
    for i in range(n):
        what = env.choose('what%d' % i, ['sale', 'zero', 'training', 'cancel', 'out', 'outzero', 'outtraining', 'outcancel'])
        sig = 'w'
        if what.startswith('out'):
            what = {'': 'sale', 'zero': 'zero', 'training': 'training', 'cancel': 'cancel'}[what[3:]]
            sig = 'b'
            out = True
        elif out:
            # the device works again
            r.receipt([0] * 5, 'w')
            out = False
        if what == 'zero':
            r.receipt([0] * 5, sig)
        else:
            r.receipt(amounts(env, 'a%d' % i, False, wide[i]), sig, dict(sale='N', training='T', cancel='S')[what])
    if out:
        r.receipt([0] * 5, 'w')


def produced(env, sizes, wide, n):
    """a new register"""
    r = Register(env, 'reg', None, 0, env.choose('size', sizes), pem=False)
    try:
        r.receipt([0] * 5)
        sequence(env, r, n, wide)
    except Exception:
        env.fail('receipts can be produced')
        return None
    return r


def fresh(env):
    T = env.thorough
    n = env.choose('n', [0, 1, 2, 3] if T else [0, 1, 2])
    r = produced(env, [5, 8, 16] if n < 2 or T else [8], [None] if n < 2 else [1, 4, 2], n)
    if r is None:
        return
    how = env.choose('how', dep.HOW if n < 2 else ['parsed'])
    m = dep.Model()
    outcome(env, r, dep.whole(m, r.jws, c.key_store('LEAF'), how))


def text(env):
    """register and receipt identifiers, exported and read again"""
    reg = env.str('reg', env.choose('regn', [1, 2]), 'a-\xe4 ')
    rid = env.str('rid', env.choose('ridn', [1, 2]), 'aZ0-;\xe4')
    env.assume(reg[0] != ' ' and reg[len(reg) - 1] != ' ')
    zda = env.choose('zda', ['AT1', 'AT0'])
    serial = '2f5a81' if zda == 'AT1' else 'U:ATU12345678-' + env.str('kid', 1, 'k1')
    r = Register(env, reg, None, 0, 8, zda=zda, serial=serial,
                 pem=env.choose('pem', [True, False]))
    step = env.choose('step', [1, 3600])
    try:
        a = r.receipt([0] * 5, rid=rid, step=step)
        b = r.receipt([0, env.int('x', -9, 9), 0, 0, 0], env.choose('sig', ['w', 'b']), step=step)
        if env.choose('end', [False, True]) or b.signature == c.FAILED_SIG:
            r.receipt([0] * 5, step=step)
        out = ''.join(depexport.JSONExporter.fromSingleGroup([(receipt.Receipt.fromJWSString(j)) for j in r.jws],
                                                             c.CERT['LEAF'] if zda == 'AT1' else None,
                                                             [c.CERT['INT'], c.CERT['ROOT']] if zda == 'AT1' else []).export())
        d = json.loads(out)
    except Exception:
        env.fail('receipts can be produced and exported')
        return
    ks = c.key_store('ROOT')
    if serial != '2f5a81':
        ks.putKey(serial, c.PUB['A'], None)

    def run():
        return verify.verifyDEP(d, ks, c.KEY, None, None, VS.UsedReceiptIdsUnique).cashRegisters[0]
    outcome(env, r, run)


def continued(env):
    """a register in use since long"""
    start = env.int('start', -(1 << 38), 1 << 38)
    lastsig = env.choose('last', ['A', None])
    s = c.Spec('r0', ts='2017-03-01T12:00:00', signed=lastsig, total=0)
    j = dep.build([s], None, 0)[0][0]
    m = dep.Model(before=(s, j), total=start, ids=['r0'])
    m.startjws = j
    r = Register(env, 'reg', j, start, env.choose('size', [6, 8] if env.thorough else [6]))
    n = env.choose('n', [1, 2, 3] if env.thorough else [1, 2])
    try:
        if lastsig is None:
            r.receipt([0] * 5)
        sequence(env, r, n, [None] if n < 2 else [1, 4, 2])
    except Exception:
        env.fail('receipts can be produced')
        return
    st = dep.state_for(m)

    def run():
        return dep.V.verifyGroup([c.compact(x) for x in r.jws], dep.verifier('LEAF'), c.KEY, None, st, dep.used_for(m))[0]
    outcome(env, r, run)


def huge(env):
    """counters that no float can hold"""
    base = env.choose('base', [1 << 53, -(1 << 53), 1 << 62, -(1 << 62)])
    start = base + env.int('start', -500, 500)
    s = c.Spec('r0', ts='2017-03-01T12:00:00', signed='A', total=0)
    j = dep.build([s], None, 0)[0][0]
    m = dep.Model(before=(s, j), total=start, ids=['r0'])
    m.startjws = j
    r = Register(env, 'reg', j, start, env.choose('size', [8, 16]))
    try:
        r.receipt(amounts(env, 'a', False), 'w', env.choose('kind', ['N', 'S', 'T']))
        r.receipt([0] * 5)
    except Exception:
        env.fail('receipts can be produced')
        return
    st = dep.state_for(m)

    def run():
        return dep.V.verifyGroup([c.compact(x) for x in r.jws], dep.verifier('LEAF'), c.KEY, None, st, dep.used_for(m))[0]
    outcome(env, r, run)


def single(env):
    """every produced receipt verifies alone"""
    size = env.choose('size', [5, 6, 8, 16])
    start = env.int('start', -(1 << 36), 1 << 36)
    r = Register(env, 'reg', None, start, size, pem=env.choose('pem', [True, False]))
    kind = env.choose('kind', ['N', 'T', 'S'])
    sig = env.choose('sig', ['w', 'b'])
    v = amounts(env, 'a', True)
    try:
        rec = r.receipt(v, sig, kind)
    except Exception:
        env.fail('receipts can be produced')
        return
    rv = dep.verifier('LEAF')
    zero = True
    for x in v:
        zero = zero and x == 0
    try:
        rec2, alg = rv.verifyJWS(rec.toJWSString('R1'))
        res = 'ok'
    except verify_receipt.UnsignedNullReceiptException:
        res = 'unsigned zero'
    except verify_receipt.SignatureSystemFailedException:
        res = 'unsigned'
    except Exception:
        res = 'other'
    if sig == 'w':
        env.check(res == 'ok', 'produced receipts verify')
        env.check(rec2.receiptId == rec.receiptId, 'the receipt is delivered')
        if kind == 'N':
            env.check(alg.decryptTurnoverCounter(rec2, rec2.turnoverCounterBytes() if hasattr(rec2, 'turnoverCounterBytes') else
                                                 __import__('base64').b64decode(rec2.encTurnoverCounter), c.KEY) == start + sum(v),
                      'the counter is in the receipt')
    else:
        env.check(res == ('unsigned zero' if zero and kind == 'N' else 'unsigned'), 'outages are reported as such')


def two(env):
    """two registers in use at the same time, with one signature device"""
    regs = [Register(env, 'reg%d' % k, None, 0, [6, 8][k]) for k in (0, 1)]
    regs[1].working, regs[1].broken = regs[0].working, regs[0].broken
    try:
        out = [None]
        for r in regs:
            r.receipt([0] * 5)
        for i in range(3):
            r = regs[env.choose('which%d' % i, [0, 1])]
            sig = env.choose('sig%d' % i, ['w', 'b']) if i < 2 else 'w'
            if sig == 'w' and out[0] is r:
                # the device works again
                r.receipt([0] * 5)
                out[0] = None
            if sig == 'b':
                if out[0] is not None and out[0] is not r:
                    out[0].receipt([0] * 5)
                out[0] = r
            r.receipt([0, env.int('x%d' % i, -9, 9), 0, 0, 0] if i < 2 else [0] * 5, sig,
                      env.choose('kind%d' % i, ['N', 'T']) if i < 1 else 'N')
        for r in regs:
            r.receipt([0] * 5)
    except Exception:
        env.fail('receipts can be produced')
        return
    for r in regs:
        outcome(env, r, dep.whole(dep.Model(), r.jws, c.key_store('LEAF'), 'parsed'))


CASES = [dict(name='single', fn=single, seconds=dict(quick=60, thorough=200)), dict(name='two', fn=two), dict(name='huge', fn=huge),
         dict(name='text', fn=text, seconds=dict(quick=100, thorough=200)),
         dict(name='fresh', fn=fresh, seconds=dict(quick=150, thorough=300)),
         dict(name='continued', fn=continued, seconds=dict(quick=120, thorough=240))]
BOUNDS = ('a start receipt and up to 2 (3) further receipts of any kind with or without working signature device and the zero receipts '
          'the rules demand; two registers in use alternately; amounts of up to +-999.99 (+-0.40 in the longer sequences) in any column; counters of 5, 6, 8 and 16 bytes; '
          'running totals of up to 2^38 and around +-2^53 and +-2^62')
OUTSIDE = 'longer sequences; totals that do not fit the chosen counter size; amounts with fractions of a cent; the A-Trust signature service'
ASSUMPTIONS = ['ideal signatures and hashes', 'floats of at most 15 significant digits are treated as exact decimals']
