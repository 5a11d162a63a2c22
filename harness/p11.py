"""P11 Register id, system type and time order are invariant in a DEP."""
from librksv import verify_receipt
from . import common as c, dep

S = c.Spec
ACC = 'receipts of one register in order are accepted'
REJ = 'a change of register, system or time order is reported'
DAY = ['2', '0', '12', '0178', '-', '01', '12', '-', '012', '1378', 'T', '012', '03', ':', '05', '0189', ':', '05', '09']


def ks():
    k = c.key_store('LEAF')
    k.putKey('U:1', c.PUB['A'], None)
    return k


def sysof(x):
    return ('AT0', 'U:1') if x == 'AT0' else (x, '2f5a81')


def pair(env, which):
    """two neighbours; one element of each symbolic"""
    p, s = S('p', c.ZERO), S('r1', c.ZERO)
    if which == 'reg':
        n, k = env.choose('lens', [(1, 1), (2, 2), (1, 2), (2, 1)])
        p.reg, s.reg = env.str('r0', n, 'aA1 -'), env.str('r1', k, 'aA1 -')
    elif which == 'date':
        part = env.choose('part', ['year', 'month', 'day', 'hour', 'minute', 'second', 'all'])
        a, b = list('2017-11-17T11:28:39'), list('2017-11-17T11:28:39')
        cut = dict(year=(0, 4), month=(5, 7), day=(8, 10), hour=(11, 13), minute=(14, 16), second=(17, 19), all=(2, 19))[part]
        full = {'year': ['1239', '0', '0123456789', '0123456789'], 'month': ['01', '12'], 'day': ['012', '12345678'],
                'hour': ['01', '0123456789'], 'minute': ['012345', '0123456789'], 'second': ['012345', '0123456789'],
                'all': ['01', '17', '-', '0', '19', '-', '2', '17', 'T', '1', '09', ':', '05', '09', ':', '05', '09']}[part]
        if part == 'year':
            full[0] = '12'
            full[1] = '09'
        x, y = env.chars('d0', full), env.chars('d1', full)
        base = '2017-11-17T11:28:39'
        p.ts, s.ts = base[:cut[0]] + x + base[cut[1]:], base[:cut[0]] + y + base[cut[1]:]
    else:
        z = ['AT0', 'AT1', 'AT12', 'DE3', 'AT10']
        p.zda, p.serial = sysof(env.choose('z0', z))
        s.zda, s.serial = sysof(env.choose('z1', z))
    return p, s


def step(env):
    p, s = pair(env, env.choose('which', ['reg', 'date', 'sys']))
    s.kind, s.signed = env.choose('kind', ['N', 'T', 'S']), env.choose('signed', ['A', None])
    p.signed = env.choose('psigned', ['A', None])
    if p.signed is None and s.signed is not None:
        s.kind = 'N'
    pj, _ = dep.build([p])
    jws, _ = dep.build([s], pj[0])
    m = dep.Model(c.KEY, (p, pj[0]), ids=['p'])
    dep.judge(env, m, [s], jws, dep.group(m, jws, verify_receipt.ReceiptVerifier.fromKeyStore(ks())),
              accepted=ACC, rejected=REJ)


def within(env):
    """somewhere inside a DEP, across chunk borders"""
    p, s = pair(env, env.choose('which', ['reg', 'date', 'sys']))
    first = S('f', reg=p.reg, zda=p.zda, serial=p.serial, ts='1000-01-01T00:00:00')
    jws, _ = dep.build([first, p, s])
    m = dep.Model(c.KEY)
    how = env.choose('how', dep.HOW)
    dep.judge(env, m, [first, p, s], jws, dep.whole(m, jws, ks(), how), accepted=ACC, rejected=REJ)


def cluster(env):
    """towards the previous register of the cluster"""
    p, s = pair(env, env.choose('which', ['reg', 'date', 'sys']))
    if p.zda != 'AT0' and s.zda != 'AT0':
        if env.choose('closed', [0, 1]):
            p.zda, p.serial = sysof('AT0')
            s.zda, s.serial = sysof('AT0')
    pj, _ = dep.build([p])
    jws, _ = dep.build([s], pj[0])
    m = dep.Model(c.KEY, prevstart=(p, pj[0]), ids=['p'])
    dep.judge(env, m, [s], jws, dep.group(m, jws, verify_receipt.ReceiptVerifier.fromKeyStore(ks())),
              accepted=ACC, rejected=REJ)


CASES = [dict(name='step', fn=step), dict(name='within', fn=within), dict(name='cluster', fn=cluster)]
BOUNDS = ('every pair of neighbouring receipts with register identifiers of 1-2 characters, with timestamps symbolic in '
          'one component or in several digits of all components, with five provider identifiers; as a step, inside a DEP '
          'in several ways of verification, and towards the previous cluster register')
OUTSIDE = 'longer register identifiers; provider identifiers other than the listed ones'
ASSUMPTIONS = ['ideal signatures and hashes']
