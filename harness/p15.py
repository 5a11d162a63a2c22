"""P15 Updating a state without verification equals verifying."""
from librksv import verification_state, verify
from . import common as c, dep

S = c.Spec
VS = verification_state
CR = VS.CashRegisterState


def prior(env, n):
    """a register state from which verification can go on"""
    st = env.choose('state', ['fresh', 'well', 'unsigned', 'outstanding', 'pending', 'pendingfresh', 'cluster']
                    if n < 3 or env.thorough else ['fresh', 'well', 'unsigned'])
    total = 0 if st in ('fresh', 'pendingfresh', 'cluster') else env.int('total', -(1 << 38), 1 << 38)
    if st in ('fresh', 'pendingfresh'):
        return dep.Model(c.KEY, chain_next=c.b64(env.bytes('next', 8)) if st == 'pendingfresh' else None)
    if st == 'cluster':
        p = S('p', zda='AT0', serial='U:1')
        return dep.Model(c.KEY, prevstart=(p, dep.build([p])[0][0]), ids=['p'])
    p = S('p', kind=env.choose('pk', ['N', 'S'] if env.thorough else ['S']), signed=None if st == 'unsigned' else 'A')
    m = dep.Model(c.KEY, (p, dep.build([p])[0][0]), total=total, restore=st == 'outstanding',
                  chain_next=c.b64(env.bytes('next', 8)) if st == 'pending' else None, ids=['p'])
    m.startjws = 'x.y.z'
    return m


def specs_for(env, m, n):
    out = []
    for i in range(n):
        sums = list(c.ZERO)
        if n < 3 or i == 2 or env.thorough:
            sums[(2 * i) % 5] = env.chars('a%d' % i, [['0', ',', '0', '05'], ['-', '01', ',', '02', '0'], ['01', ',', '0', '03']][i])
        elif i == 1:
            sums[1] = '-1,20'
        s = S('r%d' % i, sums, env.choose('k%d' % i, ['N', 'T', 'S']), env.choose('s%d' % i, ['A', None]), ts=c.TS % i,
              size=[8, 5, 12][i])
        if m.prevstart is not None:
            s.zda, s.serial = 'AT0', 'U:1'
        out.append(s)
    return out


def compare(env, a, b, key):
    for f in ('lastReceiptJWS', 'startReceiptJWS', 'needRestoreReceipt', 'chainNextTo', 'lastTurnoverCounter'):
        env.check(getattr(a, f) == getattr(b, f), 'same state as verification: ' + f)
    env.check(a == b, 'the states are equal')


def run(env, n, keyed):
    m = prior(env, n)
    specs = specs_for(env, m, n)
    key = c.KEY if keyed else None
    m.key = key
    if specs and m.chain_next is not None:
        specs[0].chain = m.chain_next
    before = m.lastjws if m.lastjws is not None else m.prevstart[1] if m.prevstart is not None else None
    jws, _ = dep.build(specs, before, m.total)
    old = dep.state_for(m)
    kept = dep.state_for(m)
    ks = c.key_store('LEAF')
    ks.putKey('U:1', c.PUB['A'], None)
    rv = dep.verify_receipt.ReceiptVerifier.fromKeyStore(ks)
    comp = [c.compact(j) for j in jws]
    st = dep.state_for(m)
    ps = None if m.prevstart is None else m.prevstart[1]
    for s, j in zip(specs, jws):
        if m.issues(s, j):
            return
    try:
        ver, u = verify.verifyGroup(comp, rv, key, ps, st, VS.UsedReceiptIdsUnique())
    except Exception:
        env.fail('the group verifies')
        return
    try:
        upd = CR.fromDEPGroup(old, comp, key)
    except Exception:
        env.fail('updating a state from a group that verifies works')
        return
    compare(env, upd, ver, key)
    if specs:
        dep.same_state(env, upd, m, 'the updated state')
    env.check(old == kept, 'the old state is kept')
    # the same in two portions, in place
    if n > 1:
        cut = env.choose('cut', list(range(0, n + 1)) if env.thorough else [1])
        two = dep.state_for(dep.Model())
        for f in ('lastReceiptJWS', 'startReceiptJWS', 'needRestoreReceipt', 'chainNextTo', 'lastTurnoverCounter'):
            setattr(two, f, getattr(kept, f))
        two.updateFromDEPGroup(comp[:cut], key)
        two.updateFromDEPGroup(comp[cut:], key)
        compare(env, two, ver, key)


def short(env):
    run(env, env.choose('n', [0, 1, 2]), env.choose('key', [1, 0]))


def long(env):
    run(env, 3, env.choose('key', [1, 0]) if env.thorough else 1)


CASES = [dict(name='short', fn=short), dict(name='long', fn=long, seconds=dict(quick=60, thorough=400))]
BOUNDS = ('groups of 0-3 receipts of every kind, signed or not, zero or not, from fresh, ordinary, unsigned, outstanding, '
          'pending-chain and cluster states with every running total of 41 bits; with and without key; in one and in two portions')
OUTSIDE = 'longer groups'
ASSUMPTIONS = ['ideal signatures and hashes; AES key streams of concrete identifiers are the real ones']
