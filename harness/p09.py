"""P09 Every register starts with a proper start receipt."""
from librksv import verify_receipt, verification_state
from . import common as c, dep

S = c.Spec
VS = verification_state
ACC = 'a proper start receipt is accepted'
REJ = 'an improper start receipt is reported'


def ks():
    k = c.key_store('LEAF')
    k.putKey('U:1', c.PUB['A'], None)
    k.putKey('U:2', c.PUB['B'], None)
    return k


def start_spec(env):
    open_ = env.choose('open', [0, 1])
    sums = [env.chars('a%d' % i, sh) for i, sh in enumerate([['0', ',', '0', '07'], ['-', '0', ',', '02', '0'],
            ['03', ',', '0', '0'], ['-', '0', ',', '0', '01'], ['02', ',', '0', '01']])]
    return S('r1', sums, env.choose('kind', ['N', 'T', 'S']), env.choose('signed', ['A', None]), ts=c.TS % 1,
             zda='AT1' if open_ else 'AT0', serial='2f5a81' if open_ else 'U:1')


def single(env):
    s = start_spec(env)
    key = env.choose('key', [c.KEY, None])
    ch = env.choose('chain', ['any', 'right', 'receipt'])
    if ch == 'any':
        s.chain = c.b64(env.bytes('chain', 8))
    elif ch == 'receipt':
        s.chain = c.chain_value('a.b.c')
    jws, n = dep.build([s])
    specs = [s]
    if env.choose('next', [0, 1]):
        t = S('r2', ('1,00',) + c.ZERO[1:], ts=c.TS % 2, zda=s.zda, serial=s.serial)
        j2, _ = dep.build([t], jws[0], n)
        specs, jws = specs + [t], jws + j2
    how = env.choose('how', ['group'] + (dep.HOW if env.thorough else ['verifyDEP', 'procs']))
    m = dep.Model(key)
    if how == 'group':
        run = dep.group(m, jws, verify_receipt.ReceiptVerifier.fromKeyStore(ks()))
    else:
        run = dep.whole(m, jws, ks(), how)
    dep.judge(env, m, specs, jws, run, exact=how in ('group', 'verifyDEP'), accepted=ACC, rejected=REJ)


def cluster(env):
    """the second register of a cluster"""
    popen = env.choose('popen', [0, 1])
    p = S('p1', zda='AT1' if popen else 'AT0', serial='2f5a81' if popen else 'U:1')
    pj, _ = dep.build([p])
    p2 = S('p2', ('1,00',) + c.ZERO[1:], zda=p.zda, serial=p.serial)
    p2j, _ = dep.build([p2], pj[0])
    s = start_spec(env)
    ch = env.choose('chain', ['any', 'start', 'reg', 'last'])
    s.chain = c.b64(env.bytes('chain', 8)) if ch == 'any' else c.chain_value(
        pj[0] if ch == 'start' else 'reg' if ch == 'reg' else p2j[0])
    jws, _ = dep.build([s])
    m = dep.Model(c.KEY, prevstart=(p, pj[0]), ids=['p1', 'p2'])
    cs = VS.ClusterState(VS.UsedReceiptIdsUnique)
    cs.addNewCashRegister()
    r = cs.cashRegisters[0]
    r.startReceiptJWS, r.lastReceiptJWS, r.lastTurnoverCounter = pj[0], p2j[0], 100
    for x in ('p1', 'p2'):
        cs.usedReceiptIds.add(x)
    idx = env.choose('idx', [None, 1])
    how = env.choose('how', ['verifyDEP', 'chunks'])
    d = dep.dep_dict([('', [], jws)])

    def run():
        if how == 'verifyDEP':
            x = dep.V.verifyDEP(d, ks(), c.KEY, cs, idx, VS.UsedReceiptIdsUnique)
        else:
            x = dep.V.verifyParsedDEP(dep.depparser.DictDEPParser(d, 1), ks(), c.KEY, cs, idx, None, 1, 1,
                                      VS.UsedReceiptIdsUnique)
        env.check(len(x.cashRegisters) == 2, 'exactly one register is added')
        env.check(x.cashRegisters[0].startReceiptJWS == pj[0] and x.cashRegisters[0].lastReceiptJWS == p2j[0] and
                  x.cashRegisters[0].lastTurnoverCounter == 100, 'the previous register is untouched')
        return x.cashRegisters[1]
    dep.judge(env, m, [s], jws, run, accepted=ACC, rejected=REJ)


CASES = [dict(name='single', fn=single), dict(name='cluster', fn=cluster)]
BOUNDS = ('every start receipt of every kind, signed or not, open and closed system, with every chaining value and five '
          'symbolic amounts (zero or not); alone and after a previous cluster register (open or closed), with chaining '
          'to the previous start receipt, last receipt, register id or any value')
OUTSIDE = 'register identifiers other than the fixed one (P07 varies them)'
ASSUMPTIONS = ['ideal signatures and hashes']
