"""P24 Registers of a cluster are addressed and updated independently."""
import json
from librksv import verification_state
from . import common as c, dep

S = c.Spec
VS = verification_state
F = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt', 'chainNextTo')


def arbitrary(env, i, started=None):
    r = VS.CashRegisterState()
    if started or (started is None and env.choose('started%d' % i, [1, 0])):
        r.startReceiptJWS = 's' + env.str('start%d' % i, 1, 'abc')
    r.lastReceiptJWS = None if env.choose('last%d' % i, [0, 1]) else 'l' + env.str('l%d' % i, 1, 'abc')
    r.lastTurnoverCounter = env.int('total%d' % i, -(1 << 40), 1 << 40)
    r.needRestoreReceipt = env.bool('need%d' % i)
    r.chainNextTo = None if i else env.str('next', 2, 'ab=')
    return r


def snap(r):
    return [getattr(r, f) for f in F]


def same(env, r, s, label):
    for f, x in zip(F, s):
        env.check(getattr(r, f) == x, label)


def addressing(env):
    """getCashRegisterInfo / updateCashRegisterInfo / addNewCashRegister"""
    n = env.choose('n', [0, 1, 2, 3])
    regs = [arbitrary(env, i, True if i < n - 1 else None) for i in range(n)]
    cs = VS.ClusterState(VS.UsedReceiptIdsUnique)
    cs.cashRegisters = list(regs)
    cs.usedReceiptIds.add('old')
    before = [snap(r) for r in regs]
    idx = env.choose('idx', [None, -3, -1, 0, 1, 2, 3, 4])
    op = env.choose('op', ['info', 'add', 'update'])
    complete = n == 0 or regs[n - 1].startReceiptJWS is not None
    if op == 'add':
        try:
            cs.addNewCashRegister()
            env.check(complete, 'a register is added only after the last one has a start receipt')
            env.check(len(cs.cashRegisters) == n + 1, 'one register is added')
            same(env, cs.cashRegisters[n], [None, None, 0, False, None], 'a new register is empty')
        except VS.NoStartReceiptForLastCashRegisterException:
            env.check(not complete, 'a register can be added after the last one has a start receipt')
            env.check(len(cs.cashRegisters) == n, 'nothing is added')
        except Exception:
            env.fail('adding fails with the documented error only')
    elif op == 'info':
        new = idx is None or idx == n
        try:
            prev, r, ids = cs.getCashRegisterInfo(idx)
            env.check(new or 0 <= idx < n, 'an index that does not exist is refused')
            if new:
                env.check(complete, 'a register is added only after the last one has a start receipt')
            at = n if new else idx
            env.check(len(cs.cashRegisters) == (n + 1 if new else n), 'a register is added exactly if asked for')
            if at > 0:
                env.check(prev == before[at - 1][0], 'the start receipt of the preceding register is the anchor')
            else:
                env.check(prev is None, 'the first register has no preceding one')
            same(env, r, [None, None, 0, False, None] if new else before[at], 'the state of the register asked for')
            # working on the copies changes nothing
            r.lastReceiptJWS = 'changed'
            r.lastTurnoverCounter = 7
            r.needRestoreReceipt = True
            ids.add('more')
            try:
                cs.usedReceiptIds.check('more')
                cs.usedReceiptIds.check('changed')
            except Exception:
                env.fail('the identifiers handed out are a copy')
            if not new:
                same(env, cs.cashRegisters[at], before[at], 'the state handed out is a copy')
        except VS.InvalidCashRegisterIndexException:
            env.check(not new and not 0 <= idx < n, 'an index that exists is accepted')
        except VS.NoStartReceiptForLastCashRegisterException:
            env.check(new and not complete, 'a register can be added after the last one has a start receipt')
        except Exception:
            env.fail('an index is refused with the documented errors only')
    else:
        x = arbitrary(env, 9, True)
        ids = VS.UsedReceiptIdsUnique()
        ids.add('x')
        if n == 0 and idx is None:
            return
        at = n - 1 if idx is None else idx
        try:
            cs.updateCashRegisterInfo(idx, x, ids)
            env.check(0 <= at < n, 'an index that does not exist is refused')
            same(env, cs.cashRegisters[at], snap(x), 'the register is updated')
            env.check(cs.usedReceiptIds == ids, 'the identifiers are updated')
            for i in range(n):
                if i != at:
                    same(env, cs.cashRegisters[i], before[i], 'other registers are untouched')
            return
        except VS.InvalidCashRegisterIndexException:
            env.check(not 0 <= at < n, 'an index that exists is accepted')
        except Exception:
            env.fail('an index is refused with the documented errors only')
    for i in range(n):
        same(env, cs.cashRegisters[i], before[i], 'registers are untouched')


def ks():
    k = c.key_store()
    k.putKey('U:1', c.PUB['A'], None)
    return k


Z = dict(zda='AT0', serial='U:1')


def verified(env):
    """three registers; verifying or updating one of them"""
    n = 3
    starts, lasts, models, regs = [], [], [], []
    prev = None
    for i in range(n):
        s = S('s%d' % i, **Z)
        sj, _ = dep.build([s], prev)
        prev = sj[0]
        l = S('l%d' % i, ('1,00',) + c.ZERO[1:], ts=c.TS % i, signed=['A', 'A', None][i], **Z)
        total = env.int('total%d' % i, -(1 << 40), 1 << 40)
        lj, _ = dep.build([l], sj[0], total)
        r = VS.CashRegisterState()
        r.startReceiptJWS, r.lastReceiptJWS, r.lastTurnoverCounter = sj[0], lj[0], total
        m = dep.Model(c.KEY, (l, lj[0]), total=total)
        m.startjws = sj[0]
        starts.append((s, sj[0]))
        models.append(m)
        regs.append(r)
    ids = [x + str(i) for i in range(n) for x in 'sl']
    cs = VS.ClusterState(VS.UsedReceiptIdsUnique)
    cs.cashRegisters = list(regs)
    for x in ids:
        cs.usedReceiptIds.add(x)
    if env.choose('stored', [0, 1]):
        cs = VS.ClusterState.readStateFromJson(json.loads(json.dumps(cs.writeStateToJson())))
    before = [snap(r) for r in regs]
    at = env.choose('at', [0, 1, 2, 3])
    given = env.choose('index', [at, None]) if at == n else at
    if at == n:
        m = dep.Model(c.KEY, prevstart=starts[n - 1], ids=ids)
        s = S('n', **Z)
        s.chain = c.chain_value(starts[env.choose('anchor', [0, 1, 2])][1])
    else:
        m = models[at]
        m.ids = list(ids)
        s = S(env.choose('rid', ['n', 's0', 'l2']), (env.chars('a', ['0', ',', '0', '05']),) + c.ZERO[1:], ts=c.TS % 5, **Z)
        j = env.choose('after', [0, 1, 2])
        s.chain = c.chain_value(models[j].lastjws)
    jws, _ = dep.build([s], None, m.total)
    how = env.choose('how', ['verifyDEP', 'chunks', 'pool'])
    d = dep.dep_dict([('', [], jws)])

    def run():
        if how == 'verifyDEP':
            x = dep.V.verifyDEP(d, ks(), c.KEY, cs, given, VS.UsedReceiptIdsUnique)
        else:
            x = dep.V.verifyParsedDEP(dep.depparser.DictDEPParser(d, 1), ks(), c.KEY, cs, given,
                                      c.Pool() if how == 'pool' else None, 1, 1, VS.UsedReceiptIdsUnique)
        for i in range(n):
            if i != at:
                same(env, x.cashRegisters[i], before[i], 'other registers are untouched')
        env.check(len(x.cashRegisters) == (n + 1 if at == n else n), 'a register is added exactly if asked for')
        for i in ids + [s.rid]:
            try:
                x.usedReceiptIds.check(i)
                known = False
            except VS.DuplicateReceiptIdException:
                known = True
            env.check(known, 'the identifiers of all registers are kept')
        return x.cashRegisters[at]
    r = dep.judge(env, m, [s], jws, run, accepted='receipts of one register are accepted',
                  rejected='receipts of another register are rejected')
    if r is None:
        for i in range(n):
            same(env, cs.cashRegisters[i], before[i], 'a failed verification changes no register')


CASES = [dict(name='addressing', fn=addressing), dict(name='verified', fn=verified)]
BOUNDS = ('clusters of 0-3 registers with symbolic states, indices from -3 to 4 and none, every operation; verification of '
          'one receipt for each of three registers and for a new one, chained after any of them')
OUTSIDE = 'clusters of more than three registers'
ASSUMPTIONS = ['ideal signatures and hashes; AES key streams of concrete identifiers are the real ones']
