"""P06 Every turnover counter in a DEP is checked against the running total."""
from . import common as c, dep

S = c.Spec


def prior(kind='N', signed='A'):
    """a receipt verified before"""
    s = S('r0', kind=kind, signed=signed)
    j, _ = dep.build([s])
    return s, j[0]


def amt(env, name, shape):
    return env.chars(name, [dict(D='123456789', d='0123456789').get(x, x) for x in shape])


SH = [('0,00', '0,00', '0,00', '0,00', '0,00'), ('d,dd', '-d,dd', '0,00', '0,00', '0,00'),
      ('Dd,dd', '-Dd,dd', '-d,dd', '0,00', '0,00'), ('0,00', '0,00', '-Dddddd,dd', '0,00', '0,00'),
      ('0,00', '0,00', '0,00', 'Dddddd,dd', '0,00'), ('0,00', '0,00', '0,00', '0,00', '-Dddd,dd')]


def step(env):
    """one receipt from an arbitrary running total"""
    size = env.choose('size', list(range(5, 17)))
    sh = SH[env.choose('amounts', list(range(len(SH))) if env.thorough or size in (5, 8) else [2])]
    before = prior(*env.choose('before', [('N', 'A'), ('T', 'A'), ('S', 'A'), ('N', None), ('S', None)]
                               if env.thorough or size in (5, 8) else [('N', 'A'), ('S', None)]))
    kind = env.choose('kind', ['N', 'S', 'T'])
    signed = env.choose('signed', ['A', None])
    lim = 8 * size - 1
    total = env.int('total', -(1 << lim), (1 << lim) - 1)
    sums = [amt(env, 's%d' % i, x) for i, x in enumerate(sh)]
    s = S('r1', sums, kind, signed, ts=c.TS % 1, size=size)
    if kind == 'N':
        x = env.int('counter', -(1 << lim), (1 << lim) - 1)
        s.ctr = c.enc_counter(c.KEY, 'reg', 'r1', x, size)
    key = env.choose('key', [c.KEY, None])
    m = dep.Model(key, before, total=total, ids=['r0'])
    jws, _ = dep.build([s], before[1])
    dep.judge(env, m, [s], jws, dep.group(m, jws, dep.verifier()),
              accepted='a receipt with the right counter is accepted',
              rejected='a receipt with a wrong counter is rejected')


def sequence(env):
    """whole DEPs with one counter off"""
    n = 3
    how = env.choose('how', dep.HOW if env.thorough else ['verifyDEP', 'procs'])
    kinds = [env.choose('k%d' % i, ['N', 'S', 'T']) for i in range(n)]
    specs = [S('r0')]
    for i, k in enumerate(kinds):
        sums = list(c.ZERO)
        sums[i + 1] = amt(env, 's%d' % i, (['-d,dd', 'Dd,dd', '-Ddd,dd'] if env.thorough else ['-0,0d', 'D,00', '-0,d5'])[i])
        specs.append(S('r%d' % (i + 1), sums, k, ts=c.TS % (i + 1)))
    off = env.choose('off', [i for i in range(n + 1)])
    total = 0
    for i, s in enumerate(specs):
        total = total + (0 if s.kind == 'T' else s.value())
        if i == off and s.kind == 'N':
            d = env.int('delta', -(1 << 20), 1 << 20)
            s.ctr = c.enc_counter(c.KEY, 'reg', s.rid, total + d, s.size)
            if env.choose('carry', [0, 1]):
                total = total + d           # the following counters build on the wrong one
        elif s.kind == 'N':
            s.ctr = c.enc_counter(c.KEY, 'reg', s.rid, total, s.size)
    jws, _ = dep.build(specs)
    m = dep.Model(c.KEY)
    dep.judge(env, m, specs, jws, dep.whole(m, jws, c.key_store('LEAF'), how),
              accepted='a DEP with the right counters is accepted',
              rejected='a DEP with a wrong counter is rejected')


def otherkey(env):
    """counters made with another key, sizes mixed"""
    sizes = env.choose('sizes', [(5, 16), (16, 5), (8, 8), (6, 7)])
    v = env.int('total', -(1 << 39) + 10 ** 5, (1 << 39) - 10 ** 5)
    a = amt(env, 's', '-Dd,dd')
    before = prior()
    s1 = S('r1', (a,) + c.ZERO[1:], ts=c.TS % 1, size=sizes[0])
    s2 = S('r2', c.ZERO, ts=c.TS % 1, size=sizes[1])
    jws, _ = dep.build([s1, s2], before[1], v, c.KEY)
    key = env.choose('key', [c.KEY, c.KEY2])
    m = dep.Model(key, before, total=v, ids=['r0'])
    dep.judge(env, m, [s1, s2], jws, dep.group(m, jws, dep.verifier()),
              accepted='counters of any size made with the key are accepted',
              rejected='counters made with another key are rejected')


def twice(env):
    """registers verified one after the other, each with its own key and total"""
    before = prior()
    for k in (0, 1):
        total = env.int('total%d' % k, -(1 << 30), 1 << 30)
        s = S('r1', (amt(env, 's%d' % k, 'D,00'),) + c.ZERO[1:], env.choose('kind%d' % k, ['N', 'T']), ts=c.TS % 1)
        t = S('r2', ts=c.TS % 2)
        made = env.choose('made%d' % k, [c.KEY, c.KEY2])
        key = env.choose('key%d' % k, [c.KEY, c.KEY2])
        if env.choose('wrong%d' % k, [0, 1]):
            t.total = 5
        jws, _ = dep.build([s, t], before[1], total, made)
        m = dep.Model(key, before, total=total, ids=['r0'])
        dep.judge(env, m, [s, t], jws, dep.group(m, jws, dep.verifier()),
                  accepted='a receipt with the right counter is accepted', rejected='a receipt with a wrong counter is rejected')


CASES = [dict(name='step', fn=step), dict(name='twice', fn=twice), dict(name='sequence', fn=sequence), dict(name='otherkey', fn=otherkey)]
BOUNDS = ('one receipt (normal, cancellation, training; signed or not) from every running total and with every '
          'counter of every size 5..16, amounts of up to 7 integer digits in every position; whole DEPs of a start '
          'receipt and three receipts of every kind with one counter off by any amount of 20 bits, in memory, '
          'in packages and in a pool; two verifications in a row with equal or different keys')
OUTSIDE = 'longer DEPs (each receipt is one step from an arbitrary state); amounts of more than 7 integer digits'
ASSUMPTIONS = ['ideal signatures and hashes; AES key streams of the concrete identifiers are the real ones']
