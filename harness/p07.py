"""P07 Receipts are chained without gaps."""
import base64
from . import common as c, dep

S = c.Spec
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
ACC = 'properly chained receipts are accepted'
REJ = 'a broken chain is reported'


def value(env):
    """every chaining value after a fixed predecessor"""
    before = S('r0', signed=env.choose('before', ['A', None]))
    bj, _ = dep.build([before])
    s = S('r1', ('0,00', '1,00', '0,00', '0,00', '0,00'), env.choose('kind', ['N', 'S', 'T']),
          env.choose('signed', ['A', None]), ts=c.TS % 1)
    s.chain = c.b64(env.bytes('chain', 8))
    key = env.choose('key', [c.KEY, None])
    jws, _ = dep.build([s], bj[0])
    m = dep.Model(key, (before, bj[0]), ids=['r0'])
    dep.judge(env, m, [s], jws, dep.group(m, jws, dep.verifier()), accepted=ACC, rejected=REJ)


def variant(env, pre, what):
    """a previous receipt with one symbolic element"""
    s = S('r0', ('0,00', '0,00', '1,00', '0,00', '0,00'))
    if what == 'rid':
        s.rid = env.str(pre + 'rid', 2, 'r01X')
    elif what == 'ts':
        s.ts = c.TS[:-4] + env.chars(pre + 'ts', ['0123', '0', '0'][0:0] + ['0', '05', ':', '0', '01'][-2:])
        s.ts = '2017-03-01T12:00:' + env.chars(pre + 'sec', ['01', '05'])
    elif what == 'sums':
        s.sums = ('0,00', '0,00', env.chars(pre + 'amt', ['1', ',', '05', '05']), '0,00', '0,00')
    elif what == 'ctr':
        s.ctr = c.b64(env.bytes(pre + 'ctr', 8))
    elif what == 'chain':
        s.chain = c.b64(env.bytes(pre + 'ch', 8))
    elif what == 'serial':
        s.serial = '2' + env.chars(pre + 'ser', ['fF', '5', 'aA', '8', '1'])
    elif what == 'signed':
        s.signed = env.choose(pre + 'signed', ['A', None])
    elif what == 'kind':
        s.kind = env.choose(pre + 'kind', ['N', 'T', 'S'])
    elif what == 'reg':
        s.reg = env.choose(pre + 'reg', ['reg', 'Reg'])
    return s


def predecessor(env):
    """the chaining value was made for one predecessor, the DEP holds another"""
    what = env.choose('what', ['rid', 'ts', 'sums', 'ctr', 'chain', 'serial', 'signed', 'kind', 'reg'])
    p, q = variant(env, 'p', what), variant(env, 'q', what)
    pj, _ = dep.build([p], 'x.y.z')
    qj, _ = dep.build([q], 'x.y.z')
    s = S('r9', ts=c.TS % 9, reg=q.reg)
    s.chain = c.chain_value(pj[0])
    jws, _ = dep.build([s], qj[0])
    m = dep.Model(None, (q, qj[0]), ids=[q.rid])
    dep.judge(env, m, [s], jws, dep.group(m, jws, dep.verifier()), accepted=ACC, rejected=REJ)


def first(env):
    """the first receipt chains to its register identifier or to the start
    receipt of the previous register"""
    cl = env.choose('cluster', [0, 1])
    s = S('r1', reg=env.str('reg', 2, 'aB1- '), zda='AT0', serial='U:1', signed='A')
    ps = None
    if cl:
        p = S('p1', reg=s.reg, zda='AT0', serial='U:1')
        pj, _ = dep.build([p])
        ps = (p, pj[0])
    how = env.choose('chain', ['any', 'reg', 'start', 'other'])
    if how == 'any':
        s.chain = c.b64(env.bytes('chain', 8))
    elif how == 'reg':
        s.chain = c.chain_value(env.str('to', 2, 'aB1- '))
    elif how == 'start':
        s.chain = c.chain_value(ps[1] if cl else 'a.b.c')
    else:
        s.chain = c.chain_value('p1')
    jws, _ = dep.build([s])
    m = dep.Model(c.KEY, prevstart=ps, ids=['p1'] if cl else [])
    ks = c.key_store()
    ks.putKey('U:1', c.PUB['A'], None)
    dep.judge(env, m, [s], jws, dep.group(m, jws, dep.verify_receipt.ReceiptVerifier.fromKeyStore(ks)),
              accepted=ACC, rejected=REJ)


def configured(env):
    """an explicitly configured value counts once, instead of the hash"""
    fresh = env.choose('fresh', [0, 1])
    before = None
    if not fresh:
        p = S('r0')
        before = (p, dep.build([p])[0][0])
    want = env.choose('want', ['sym', 'text'])
    want = c.b64(env.bytes('want', 8)) if want == 'sym' else env.chars('want', ['aA', 'b', 'C='])
    s = S('r1', ts=c.TS % 1)
    k = env.choose('chain', ['any', 'hash'])
    if k == 'any':
        s.chain = c.b64(env.bytes('chain', 8))
    jws, n = dep.build([s], None if fresh else before[1])
    t = S('r2', ts=c.TS % 2)
    if env.choose('second', ['hash', 'same']) == 'same':
        t.chain = s.chain
    j2, _ = dep.build([t], jws[0], n)
    m = dep.Model(c.KEY, before, chain_next=want, ids=[] if fresh else ['r0'])
    if env.choose('split', [0, 1]):
        st = dep.judge(env, m, [s], jws, dep.group(m, jws, dep.verifier()), accepted=ACC, rejected=REJ)
        if st is None:
            return
        u = dep.used_for(m)
        rv = dep.verifier()
        dep.judge(env, m, [t], j2, lambda: dep.V.verifyGroup([c.compact(j2[0])], rv, c.KEY, None, st, u)[0],
                  accepted=ACC, rejected=REJ)
    else:
        dep.judge(env, m, [s, t], jws + j2, dep.group(m, jws + j2, dep.verifier()), accepted=ACC, rejected=REJ)


def edits(env):
    """a valid DEP, tampered with"""
    n = 5 if env.thorough else 4
    how = env.choose('how', dep.HOW)
    pat = env.choose('pattern', [0, 1, 2])
    specs = []
    for i in range(n):
        kind, signed, x = [('N', 'A', 0), ('N', 'A', 1), ('T', 'A', 1), ('S', 'A', 1), ('N', 'A', 0)][i] if pat == 0 else \
            [('N', 'A', 0), ('N', None, 1), ('S', None, 0), ('N', 'A', 0), ('N', 'A', 1)][i] if pat == 1 else \
            [('N', 'A', 0), ('N', 'A', 0), ('N', 'A', 0), ('N', 'A', 0), ('N', 'A', 0)][i]
        specs.append(S('r%d' % i, ('%d,00' % (i if x else 0),) + c.ZERO[1:], kind, signed, ts=c.TS % i))
    jws, _ = dep.build(specs)
    op = env.choose('op', ['none', 'remove', 'duplicate', 'swap', 'foreign', 'alter', 'resign'])
    i = env.choose('i', list(range(n)))
    if op == 'remove':
        specs, jws = specs[:i] + specs[i + 1:], jws[:i] + jws[i + 1:]
    elif op == 'duplicate':
        j = env.choose('j', list(range(n)))
        specs, jws = specs[:j] + [specs[i]] + specs[j:], jws[:j] + [jws[i]] + jws[j:]
    elif op == 'swap':
        j = env.choose('j', list(range(n)))
        specs, jws = list(specs), list(jws)
        specs[i], specs[j] = specs[j], specs[i]
        jws[i], jws[j] = jws[j], jws[i]
    elif op == 'foreign':
        f = S('f', ts=specs[i].ts)
        fj, _ = dep.build([f], jws[i - 1] if i else None)
        specs, jws = specs[:i] + [f] + specs[i:], jws[:i] + fj + jws[i:]
    elif op == 'alter' or op == 'resign':
        s = specs[i]
        a = S(s.rid, s.sums, s.kind, s.signed, s.ts, s.reg, s.zda, s.serial, s.ctr, s.chain)
        if op == 'alter':
            a.rid = 'r' + env.str('rid', 1, '01234xX')
        else:
            a.signed = None if s.signed is not None else 'A'
        aj, _ = dep.build([a])
        specs, jws = specs[:i] + [a] + specs[i + 1:], jws[:i] + aj + jws[i + 1:]
    if not specs or (op in ('alter', 'resign') and how == 'pool'):
        return
    m = dep.Model(None)
    dep.judge(env, m, specs, jws, dep.whole(m, jws, c.key_store('LEAF'), how), exact=how in ('verifyDEP', 'parsed'),
              accepted=ACC, rejected=REJ)


def twice(env):
    """registers verified one after the other: equal identifiers, other receipts"""
    for k in (0, 1):
        p = S('r0', (env.choose('sum%d' % k, ['0,00', '1,00']),) + c.ZERO[1:], signed=env.choose('before%d' % k, ['A', None]))
        q = S('r0', (env.choose('made%d' % k, ['0,00', '1,00']),) + c.ZERO[1:], signed=env.choose('madeb%d' % k, ['A', None]))
        pj, _ = dep.build([p])
        qj, _ = dep.build([q])
        s = S('r1', ts=c.TS % 1, chain=c.chain_value(qj[0]))
        jws, _ = dep.build([s], pj[0])
        m = dep.Model(None, (p, pj[0]), ids=['r0'])
        dep.judge(env, m, [s], jws, dep.group(m, jws, dep.verifier()), accepted=ACC, rejected=REJ)


CASES = [dict(name='value', fn=value), dict(name='twice', fn=twice), dict(name='predecessor', fn=predecessor), dict(name='first', fn=first),
         dict(name='configured', fn=configured), dict(name='edits', fn=edits)]
BOUNDS = ('one receipt of every kind with every chaining value after a fixed predecessor; pairs of predecessors '
          'differing in any one element (symbolic content); start receipts with every chaining value and register '
          'identifiers of 2 characters, alone and in a cluster; configured chaining values; every removal, '
          'duplication, exchange, insertion, alteration and re-signing in a DEP of 4 (thorough 5) receipts, '
          'verified in memory, in chunks, packages and a pool; two verifications in a row')
OUTSIDE = 'longer DEPs (every receipt is one step from an arbitrary state); collisions of SHA-256 prefixes'
ASSUMPTIONS = ['SHA-256 is injective on symbolic texts (its first 8 bytes too) and the real function on concrete ones', 'ideal signatures']
