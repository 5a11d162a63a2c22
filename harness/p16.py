"""P16 Verification can resume at an arbitrary receipt."""
import json
from librksv import verification_state, receipt
from . import common as c, dep

S = c.Spec
VS = verification_state
ACC = 'a DEP that goes on from the receipt is accepted'
REJ = 'a DEP that starts with anything else is rejected'


def ks():
    k = c.key_store('LEAF')
    k.putKey('U:1', c.PUB['A'], None)
    return k


def amount(env, n, sh):
    return env.chars(n, [dict(D='123456789', d='0123456789').get(x, x) for x in sh])


def stored(env, cs):
    if env.choose('stored', [0, 1]):
        return VS.ClusterState.readStateFromJson(json.loads(json.dumps(cs.writeStateToJson())))
    return cs


def entry(env, sums=None):
    """the receipt to start from"""
    z = env.choose('zda', ['AT1', 'AT0'])
    s = S('r1', sums or (amount(env, 'a0', '-d,dd' if env.thorough else '-0,0d'), '0,00', amount(env, 'a2', 'Dd,dd' if env.thorough else 'D,00'), '0,00', '0,00'),
          env.choose('kind', ['N', 'T', 'S']), env.choose('signed', ['A', None]), ts=c.TS % 1, zda=z,
          serial='2f5a81' if z == 'AT1' else 'U:1', size=env.choose('size', [8, 5]))
    s.chain = c.b64(env.bytes('chain', 8))
    return s


def resumed(env):
    s = entry(env)
    total = env.int('total', -(1 << 38), 1 << 38)
    key = env.choose('key', [c.KEY, None])
    jws, n = dep.build([s], 'x.y.z', total)
    rec, prefix = receipt.Receipt.fromJWSString(jws[0])
    try:
        cs = VS.ClusterState.fromArbitraryReceipt(rec, prefix, key, VS.UsedReceiptIdsUnique)
    except Exception:
        env.fail('a state can be made from every receipt')
        return
    cs = stored(env, cs)
    # the receipt before it, as far as it matters
    before = S('dummyrec', ts=s.ts, zda=s.zda, serial=s.serial)
    # a training or cancellation receipt does not tell the running total
    base = total if s.kind == 'N' else 0
    m = dep.Model(key, (before, 'dummy'), total=base, chain_next=s.chain)
    t = S('r2', ('0,00', '1,00') + c.ZERO[2:], ts=c.TS % 2, zda=s.zda, serial=s.serial)
    j2, _ = dep.build([t], jws[0], base + (0 if s.kind == 'T' else s.value()))
    what = env.choose('dep', ['same', 'chain', 'counter', 'next'])
    specs, js = [s, t], jws + j2
    if what == 'chain' or what == 'counter':
        o = S(s.rid, s.sums, s.kind, s.signed, s.ts, s.reg, s.zda, s.serial, s.ctr, s.chain, s.size)
        if what == 'chain':
            o.chain = c.b64(env.bytes('chain2', 8))
        elif s.kind == 'N':
            o.ctr = c.enc_counter(c.KEY, 'reg', s.rid, env.int('counter2', -(1 << 38), 1 << 38), s.size)
        specs = [o]
        js, _ = dep.build(specs)
    elif what == 'next':
        specs, js = [t], j2
    how = env.choose('how', ['verifyDEP', 'procs'])
    d = dep.dep_dict([('', [], js)])

    def run():
        if how == 'verifyDEP':
            x = dep.V.verifyDEP(d, ks(), key, cs, 0, VS.UsedReceiptIdsUnique)
        else:
            x = dep.V.verifyParsedDEP(dep.depparser.DictDEPParser(d, 2), ks(), key, cs, 0, None, 2, 1, VS.UsedReceiptIdsUnique)
        return x.cashRegisters[0]
    dep.judge(env, m, specs, js, run, accepted=ACC, rejected=REJ)


def from_start(env):
    """start receipts of a register whose predecessor is not at hand"""
    z = env.choose('zda', ['AT0', 'AT1'])
    s = S('r1', c.ZERO if env.choose('zero', [1, 0]) else (amount(env, 'a0', '0,0d'),) + c.ZERO[1:],
          env.choose('kind', ['N', 'T', 'S']), env.choose('signed', ['A', None]), zda=z,
          serial='2f5a81' if z == 'AT1' else 'U:1')
    s.chain = c.b64(env.bytes('chain', 8))
    jws, n = dep.build([s])
    rec, prefix = receipt.Receipt.fromJWSString(jws[0])
    try:
        cs = VS.ClusterState.fromArbitraryStartReceipt(rec, VS.UsedReceiptIdsUnique)
    except Exception:
        env.fail('a state can be made from every receipt')
        return
    cs = stored(env, cs)
    m = dep.Model(c.KEY, chain_next=s.chain)
    t = S('r2', ('0,00', '1,00') + c.ZERO[2:], ts=c.TS % 2, zda=s.zda, serial=s.serial)
    if env.choose('linked', [1, 0]) == 0:
        t.chain = s.chain
    j2, _ = dep.build([t], jws[0], n)
    specs, js = [s, t], jws + j2
    if env.choose('other', [0, 1]):
        o = S(s.rid, s.sums, s.kind, s.signed, s.ts, s.reg, s.zda, s.serial, s.ctr, c.b64(env.bytes('chain2', 8)))
        specs = [o]
        js, _ = dep.build(specs)
    how = env.choose('how', ['verifyDEP', 'chunks', 'procs'])
    d = dep.dep_dict([('', [], js)])

    def run():
        if how == 'verifyDEP':
            x = dep.V.verifyDEP(d, ks(), c.KEY, cs, 0, VS.UsedReceiptIdsUnique)
        else:
            x = dep.V.verifyParsedDEP(dep.depparser.DictDEPParser(d, 1), ks(), c.KEY, cs, 0, None,
                                      2 if how == 'procs' else 1, 1, VS.UsedReceiptIdsUnique)
        return x.cashRegisters[0]
    dep.judge(env, m, specs, js, run, accepted=ACC, rejected=REJ)


CASES = [dict(name='resumed', fn=resumed), dict(name='from_start', fn=from_start)]
BOUNDS = ('every entry receipt (open and closed system, every kind, signed or not, two symbolic amounts, every running total '
          'of 39 bits, counters of 5 and 8 bytes) with every chaining value; DEPs that start with it, with another chaining '
          'value, with another counter or with the next receipt; states stored in between or not')
OUTSIDE = 'entry receipts that are training or cancellation receipts do not tell the running total: the total then starts at zero'
ASSUMPTIONS = ['ideal signatures and hashes; AES key streams of concrete identifiers are the real ones']
