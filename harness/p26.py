"""P26 Work packages partition the receipts."""
from librksv import verify, depparser
from . import common as c
from .p18 import jws, cert, certs

V, DP = verify, depparser


class Rec(object):
    """a receipt; only its identity matters"""

    def __init__(self, n):
        self.n = n


class RV(object):
    """a verifier; equal ones are interchangeable"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, RV) and self.k == other.k

    def __ne__(self, other):
        return not self == other

    __hash__ = None


def balance(env):
    """receipts with verifiers are distributed over at most nprocs packages"""
    T = env.thorough
    n = env.choose('groups', [1, 2, 3, 4] if T else [1, 2, 3])
    top = {1: 12, 2: 6, 3: 3, 4: 3}[n]
    groups = []
    same = env.choose('verifiers', ['int', 'object', 'equal'])
    # the very same receipt again and again
    twin = env.choose('twin', [0, 1]) if same == 'int' and n < 3 else 0
    for i in range(n):
        size = env.choose('size%d' % i, list(range(top + 1)))
        if same == 'int':
            rv = env.int('rv%d' % i, 0, 2)
        elif same == 'object':
            rv = object()
        else:
            rv = RV(env.int('rv%d' % i, 0, 1))
        groups.append(([Rec((i, j)) for j in range(size)] if not twin else ['rec'] * size, rv))
    total = sum(len(g[0]) for g in groups)
    env.assume(total > 0)
    nprocs = env.choose('nprocs', [1, 2, 3, 4, 5, 8, 13] if T or n < 3 else [1, 2, 3, 5])
    try:
        pkgs = V.balanceGroupsWithVerifiers([(list(a), b) for a, b in groups], nprocs)
        pkgs = [[(list(a), b) for a, b in p] for p in pkgs]
    except Exception:
        env.fail('receipts can be distributed')
        return
    env.check(len(pkgs) <= nprocs, 'not more packages than requested')
    for p in pkgs:
        env.check(len(p) > 0 and all(len(a) > 0 for a, b in p), 'no empty package')
    want = [(r, g[1]) for g in groups for r in g[0]]
    got = [(r, b) for p in pkgs for a, b in p for r in a]
    env.check(len(want) == len(got), 'every receipt exactly once')
    for (r, b), (r2, b2) in zip(want, got):
        env.check(r is r2, 'every receipt exactly once and in order')
        env.check(b == b2, 'every receipt with its own verifier')


def chunks(env):
    """chunks are handed out in rounds of at most nprocs"""
    n = env.choose('chunks', list(range(10)))
    nprocs = env.choose('nprocs', [1, 2, 3, 4, 7, 9, 10])
    items = [env.int('c%d' % i, 0, 9) for i in range(n)]
    taken = []

    def source():
        for x in items:
            taken.append(x)
            yield x
    got = []
    try:
        for r in V.getChunksForProcs(source() if env.choose('lazy', [True, False]) else items, nprocs):
            got.append(list(r))
    except Exception:
        env.fail('chunks can be handed out')
        return
    for r in got:
        env.check(0 < len(r) <= nprocs, 'rounds are not empty and not too large')
    flat = [x for r in got for x in r]
    env.check(len(flat) == n, 'every chunk exactly once')
    for a, b in zip(items, flat):
        env.check(a == b, 'every chunk exactly once and in order')


def parts(env):
    """the parser divides a DEP into parts or chunks"""
    T = env.thorough
    n = env.choose('groups', [1, 2, 3])
    groups = []
    x = env.str('x', 1, '0159')
    for i in range(n):
        k = env.choose('n%d' % i, {1: list(range(8)), 2: [0, 1, 2, 3, 4], 3: [0, 1, 2, 3] if T else [0, 1, 2]}[n])
        groups.append((['LEAF', 'LEAFB', 'LEAF'][i] if n > 1 else env.choose('cert', ['LEAF', None]), [['INT'], [], []][i],
                       [jws('r%d%d' % (i, j), x) for j in range(k)]))
    how = env.choose('how', ['parts', 'size'])
    k = env.choose('k', [1, 2, 3, 4, 6, 9] if T or n < 3 else [1, 2, 3, 5])
    d = {'Belege-Gruppe': [{'Signaturzertifikat': '' if g[0] is None else c.cert_b64(g[0]),
                            'Zertifizierungsstellen': [c.cert_b64(x) for x in g[1]], 'Belege-kompakt': list(g[2])} for g in groups]}
    want = [(j, cert(g[0]), certs(g[1])) for g in groups for j in g[2]]
    try:
        p = DP.DictDEPParser(d, k) if how == 'parts' else DP.DictDEPParser(d)
        got = [[(list(a), b, e) for a, b, e in ch] for ch in p.parse(0 if how == 'parts' else k)]
    except DP.DEPParseException:
        env.check(not want, 'a DEP can be divided')
        return
    except Exception:
        env.fail('a DEP can be divided')
        return
    for ch in got:
        m = sum(len(a) for a, b, e in ch)
        env.check(m > 0 and all(len(a) > 0 for a, b, e in ch), 'no empty part')
        if how == 'size':
            env.check(m <= k, 'chunks have at most the requested size')
    if how == 'parts' and k > 1:
        env.check(len(got) <= k, 'not more parts than requested')
    flat = [(r, b, e) for ch in got for a, b, e in ch for r in a]
    env.check(len(flat) == len(want), 'every receipt exactly once')
    for (r, b, e), (j, ce, ch) in zip(flat, want):
        env.check(DP.expandDEPReceipt(r) == j, 'every receipt exactly once and in order')
        env.check(b == ce and list(e) == ch, 'every receipt with its own certificate')


CASES = [dict(name='balance', fn=balance, seconds=dict(quick=90, thorough=300)), dict(name='chunks', fn=chunks),
         dict(name='parts', fn=parts, seconds=dict(quick=90, thorough=240))]
BOUNDS = ('up to 3 (4) groups of up to 3-12 receipts with verifiers of arbitrary equality, 1-13 workers; up to 9 chunks; DEPs of '
          'up to 8 receipts in up to 3 groups divided into 1-9 parts or chunks of 1-9 receipts')
OUTSIDE = 'DEPs without any receipt'
ASSUMPTIONS = []
