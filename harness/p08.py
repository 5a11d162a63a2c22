"""P08 Signature device outages must end with a signed zero receipt."""
from . import common as c, dep

S = c.Spec
ACC = 'receipts that obey the restore rule are accepted'
REJ = 'a missing restore receipt is reported'


def mk(env, i):
    t = env.choose('t%d' % i, ['N', 'T', 'S'])
    pos = (i * 2) % 5
    sums = list(c.ZERO)
    sums[pos] = env.chars('a%d' % i, [['0', ',', '0', '05'], ['-', '0', ',', '02', '0']][i % 2])
    return S('r%d' % i, sums, t, env.choose('s%d' % i, ['A', None]), ts=c.TS % (i % 10))


def start(env):
    """the three kinds of prior state: all well, last unsigned, zero receipt outstanding"""
    st = env.choose('state', ['well', 'unsigned', 'outstanding'])
    p = S('p', kind=env.choose('pk', ['N', 'T', 'S'] if env.thorough else ['N', 'S']),
          signed=None if st == 'unsigned' else 'A')
    pj, _ = dep.build([p])
    return (p, pj[0]), st == 'outstanding'


def run(env, n, cls):
    before, out = start(env)
    specs = [mk(env, i) for i in range(n)]
    key = env.choose('key', [c.KEY, None]) if env.thorough else c.KEY
    jws, _ = dep.build(specs, before[1])
    m = dep.Model(key, before, restore=out, ids=['p'])
    cls(env, m, specs, jws)


def group(env):
    def f(env, m, specs, jws):
        dep.judge(env, m, specs, jws, dep.group(m, jws, dep.verifier()), accepted=ACC, rejected=REJ)
    run(env, 3 if env.thorough else 2, f)


def whole(env):
    """from the first receipt on, through the DEP verification functions"""
    how = env.choose('how', dep.HOW if env.thorough else ['verifyDEP', 'chunks', 'pool'])
    pat = env.choose('pattern', ['u', 'ux', 'uu', 'x'])
    specs = [S('s')]
    for i, ch in enumerate(pat):
        specs.append(S('u%d' % i, ('1,00',) + c.ZERO[1:], signed=None if ch == 'u' else 'A'))
    n = 2
    for i in range(n):
        specs.append(mk(env, i))
    for i, s in enumerate(specs):
        s.ts = c.TS % i
    jws, _ = dep.build(specs)
    m = dep.Model(c.KEY)
    dep.judge(env, m, specs, jws, dep.whole(m, jws, c.key_store('LEAF'), how), exact=how == 'verifyDEP',
              accepted=ACC, rejected=REJ)


def nulls(env):
    """what counts as the zero receipt that ends an outage"""
    before = S('p', ('1,00',) + c.ZERO[1:])
    bj, _ = dep.build([before], 'x.y.z')
    sums = [env.chars('a%d' % i, sh) for i, sh in enumerate([['-', '0', ',', '01', '02'], ['01', ',', '05', '0'],
            ['-', '01', ',', '0', '09'], ['0', ',', '01', '03'], ['05', ',', '0', '01']])]
    s = S('r1', sums, env.choose('kind', ['N', 'T', 'S']), env.choose('signed', ['A', None]), ts=c.TS % 1)
    jws, _ = dep.build([s], bj[0], 500)
    m = dep.Model(c.KEY, (before, bj[0]), total=500, restore=True, ids=['p'])
    dep.judge(env, m, [s], jws, dep.group(m, jws, dep.verifier()), accepted=ACC, rejected=REJ)


CASES = [dict(name='group', fn=group), dict(name='whole', fn=whole), dict(name='nulls', fn=nulls)]
BOUNDS = ('every sequence of 2 (thorough 3) receipts, signed or not, zero or not, normal/training/cancellation, from '
          'every kind of prior state; whole DEPs with outages of 1-2 receipts followed by every 2 receipts, in memory, '
          'chunks, packages and a pool; zero receipts with all five amounts symbolic')
OUTSIDE = 'longer sequences (the state after each receipt is compared with the model, so sequences compose)'
ASSUMPTIONS = ['ideal signatures and hashes']
