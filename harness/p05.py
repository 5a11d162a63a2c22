"""P05 Turnover counter encryption round-trips for every value."""
import base64
from librksv import algorithms, receipt, utils, cashreg, sigsys, verify, verification_state
from . import common as c, dep

VS = verification_state
R1 = algorithms.ALGORITHMS['R1']
ID = 'abcXYZ019-.;: Ä€'


class Ids(object):
    def __init__(self, reg, rid):
        self.registerId = reg
        self.receiptId = rid


def make(reg, rid, ctr):
    r = receipt.Receipt('AT1', reg, rid, c.TS % 0, '0,00', '0,00', '0,00', '0,00', '0,00',
                        ctr, '2f5a81', c.chain_value('x'))
    r.sign(c.HEADER, c.FAILED_SIG)
    return r


def roundtrip(env):
    size = env.choose('size', list(range(5, 17)))
    v = env.int('value', -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
    key = env.bytes('key', 32) if env.choose('anykey', [0, 1]) else c.KEY
    reg = env.str('reg', 2, ID)
    rid = env.str('rid', 2, ID)
    o = Ids(reg, rid)
    ct = R1.encryptTurnoverCounter(o, v, key, size)
    env.check(len(ct) == size, 'ciphertext has the requested size')
    env.check(R1.decryptTurnoverCounter(o, ct, key) == v, 'decryption yields the signed value')
    env.check(c.b64(ct) == c.enc_counter(key, reg, rid, v, size),
              'ciphertext is AES-256-CTR with the IV from register and receipt identifier')
    r = make(reg, rid, c.b64(ct))
    env.assume(not r.isDummy() and not r.isReversal())
    env.check(r.decryptTurnoverCounter(key, R1) == v, 'the receipt decrypts to the signed value')


def vector(env):
    """concrete identifiers, every ciphertext: the decrypted value against the
    real AES"""
    size = env.choose('size', list(range(5, 17)))
    raw = env.bytes('raw', size)
    reg, rid = env.choose('ids', [('reg', 'r1'), ('r', 'egr1'), ('Ä', '€')])
    r = make(reg, rid, c.b64(raw))
    env.check(r.decryptTurnoverCounter(c.KEY, R1) == c.dec_counter(c.KEY, reg, rid, c.b64(raw)),
              'decryption agrees with AES-256-CTR')


def ivdep(env):
    """different identifiers give a different counter key stream"""
    reg = env.str('reg', env.choose('l1', [1, 2]), 'ab1')
    rid = env.str('rid', env.choose('l2', [1, 2]), 'ab1')
    reg2 = env.str('reg2', env.choose('l3', [1, 2]), 'ab1')
    rid2 = env.str('rid2', env.choose('l4', [1, 2]), 'ab1')
    v = 12345
    a = R1.encryptTurnoverCounter(Ids(reg, rid), v, c.KEY, 16)
    b = R1.encryptTurnoverCounter(Ids(reg2, rid2), v, c.KEY, 16)
    if reg + rid == reg2 + rid2:
        env.check(a == b, 'same identifiers, same ciphertext')
    else:
        env.check(a != b, 'other identifiers, other ciphertext')


def keys(env):
    n = env.choose('n', list(range(0, 41)) + [64])
    kind = env.choose('kind', ['bytes', 'str', 'bytearray'])
    key = env.bytes('key', n)
    if kind == 'str':
        key = env.str('skey', n, 'ab0')
    elif kind == 'bytearray':
        key = list(key)
    ct = c.b64(bytes(range(8)))
    r = make('reg', 'r1', ct)
    where = env.choose('where', ['decrypt', 'register'])
    reg = cashreg.CashRegister('reg', None, 5, key, 8)
    ss = sigsys.SignatureSystemBroken('AT1', '2f5a81')
    import datetime
    try:
        if where == 'decrypt':
            r.decryptTurnoverCounter(key, R1)
        else:
            reg.receipt('R1', 'r1', datetime.datetime(2017, 1, 1), 0.0, 0.0, 0.0, 0.0, 0.0, ss)
        env.check(n == 32 and kind == 'bytes', 'keys that are not 32 bytes are refused')
    except utils.InvalidKeyException:
        env.check(n != 32 or kind != 'bytes', 'keys of 32 bytes are accepted')
    except Exception:
        env.fail('bad keys are refused as invalid key')


def refused(env):
    """keys that are not 32 bytes are refused wherever a counter is to be read"""
    n = env.choose('n', [1, 8, 16, 24, 31, 33, 40, 64])
    key = env.bytes('key', n) if env.choose('kind', ['bytes', 'str']) == 'bytes' else env.str('skey', n, 'ab0')
    where = env.choose('where', ['group', 'dep', 'update', 'from'])
    k = env.choose('kind1', ['N', 'T', 'S'])
    size = env.choose('size', [5, 8, 16])
    specs = [c.Spec('r0', size=size), c.Spec('r1', ('1,00', '0,00', '0,00', '0,00', '0,00'), k, ts=c.TS % 1)]
    jws, _ = dep.build(specs)
    comp = [c.compact(j) for j in jws]
    try:
        if where == 'group':
            verify.verifyGroup(comp, dep.verifier('LEAF'), key, None, VS.CashRegisterState(), VS.UsedReceiptIdsUnique())
        elif where == 'dep':
            verify.verifyDEP(dep.dep_dict([('', [], jws)]), c.key_store('LEAF'), key)
        elif where == 'update':
            VS.CashRegisterState().updateFromDEPGroup(comp, key)
        else:
            VS.CashRegisterState.fromDEPGroup(VS.CashRegisterState(), comp, key)
        env.fail('keys that are not 32 bytes are refused')
    except utils.InvalidKeyException:
        pass
    except Exception:
        env.fail('bad keys are refused as invalid key')


def twice(env):
    """keys, registers and receipts used before do not matter"""
    for k in (0, 1):
        key = env.choose('key%d' % k, [c.KEY, c.KEY2])
        size = env.choose('size%d' % k, [5, 8, 16])
        reg = env.choose('reg%d' % k, ['reg', 'r'])
        rid = 'r' + env.str('rid%d' % k, 1, '12')
        v = env.int('value%d' % k, -(1 << 39), (1 << 39) - 1)
        o = Ids(reg, rid)
        ct = R1.encryptTurnoverCounter(o, v, key, size)
        env.check(c.b64(ct) == c.enc_counter(key, reg, rid, v, size),
                  'ciphertext is AES-256-CTR with the IV from register and receipt identifier')
        env.check(make(reg, rid, c.b64(ct)).decryptTurnoverCounter(key, R1) == v, 'the receipt decrypts to the signed value')


def register(env):
    """the counter in a receipt of the cash register, every size"""
    import datetime
    size = env.choose('size', list(range(4, 18)))
    try:
        reg = cashreg.CashRegister('reg', None, 0, c.KEY, size)
    except Exception:
        env.check(size < 5 or size > 16, 'sizes from 5 to 16 are supported')
        return
    env.check(5 <= size <= 16, 'other sizes are refused')
    v = env.int('value', -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
    reg.turnoverCounter = v
    ss = sigsys.SignatureSystemBroken('AT1', '2f5a81')
    rec = reg.receipt('R1', 'r1', datetime.datetime(2017, 1, 1), 0.0, 0.0, 0.0, 0.0, 0.0, ss)
    env.check(len(base64.b64decode(rec.encTurnoverCounter)) == size, 'ciphertext has the size of the register')
    env.assume(not rec.isDummy() and not rec.isReversal())
    env.check(rec.decryptTurnoverCounter(c.KEY, R1) == v, 'the receipt carries the counter of the register')


CASES = [dict(name='roundtrip', fn=roundtrip), dict(name='vector', fn=vector), dict(name='ivdep', fn=ivdep),
         dict(name='keys', fn=keys), dict(name='register', fn=register),
         dict(name='refused', fn=refused), dict(name='twice', fn=twice)]
BOUNDS = ('counter sizes 5..16 with every value of that size; identifiers of 2 characters out of 16 (all of '
          'them for the equality with the reference construction); every 32 byte key; key lengths 0..40 and 64; unusable keys given to verification and to updates; two counters in a row')
OUTSIDE = 'longer identifiers; strength of AES and SHA-256'
ASSUMPTIONS = ['SHA-256 and AES-CTR key streams are ideal functions (equal inputs, equal outputs; different inputs, different outputs for SHA-256) on symbolic inputs and the real ones on concrete inputs']
