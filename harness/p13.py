"""P13 The verdict does not depend on chunking or parallelism."""
import io, json
from librksv import depparser, receipt, verification_state, verify, key_store, utils
from . import common as c, dep

S = c.Spec
VS = verification_state
UNIQUE, SORTED = VS.UsedReceiptIdsUnique, VS.UsedReceiptIdsSortedNatural


def prior(env, options, backend):
    """(model state, real cluster state maker)"""
    st = env.choose('state', options)
    if st == 'fresh':
        m = dep.Model(c.KEY)
    elif st == 'cluster':
        p = S('p', zda='AT0', serial='U:1')
        m = dep.Model(c.KEY, prevstart=(p, dep.build([p])[0][0]), ids=['p'])
    else:
        p = S('p', signed=None if st == 'unsigned' else 'A')
        m = dep.Model(c.KEY, (p, dep.build([p])[0][0]), total=env.int('total', -(1 << 38), 1 << 38),
                      restore=st == 'outstanding', ids=['p'],
                      chain_next=c.b64(env.bytes('next', 8)) if st == 'pending' else None)
        m.startjws = 'x.y.z'

    def make():
        if st == 'fresh':
            return None, None
        cs = VS.ClusterState(backend)
        if st == 'cluster':
            first = VS.CashRegisterState()
            first.startReceiptJWS = first.lastReceiptJWS = m.prevstart[1]
            cs.cashRegisters.append(first)
        cs.cashRegisters.append(dep.state_for(m))
        cs.usedReceiptIds = dep.used_for(m, backend)
        return cs, len(cs.cashRegisters) - 1
    return m, make


def attempt(env, run):
    """('ok', state) or ('rejected', None)"""
    try:
        return 'ok', run()
    except (receipt.ReceiptException, depparser.DEPException):
        return 'rejected', None
    except Exception:
        env.fail('verification fails with verification errors only')


WAYS = [('dict', 0, 1, 0), ('dict', 0, 2, 0), ('dict', 0, 3, 1), ('dict', 1, 1, 0), ('dict', 1, 2, 1), ('dict', 1, 3, 0),
        ('dict', 2, 1, 1), ('dict', 2, 2, 0), ('dict', 3, 1, 0), ('dict', 5, 2, 1),
        ('file', 0, 1, 0), ('file', 1, 2, 0), ('file', 2, 1, 1), ('file', 3, 2, 0), ('stream', 0, 1, 0), ('stream', 1, 1, 0),
        ('stream', 2, 2, 1), ('full', 0, 2, 0), ('full', 2, 1, 0)]
FEW = [WAYS[i] for i in (0, 2, 3, 4, 7, 8, 11, 14)]


class OneWay(io.BytesIO):
    """file that cannot be positioned"""

    def seekable(self):
        return False

    def tell(self):
        raise io.UnsupportedOperation('tell')

    def seek(self, *a):
        raise io.UnsupportedOperation('seek')


def parser(kind, d, nprocs):
    if kind == 'dict':
        return depparser.DictDEPParser(d, nprocs)
    data = json.dumps(d).encode('utf-8')
    if kind == 'full':
        return depparser.FullFileDEPParser(io.BytesIO(data), nprocs)
    return depparser.IncrementalDEPParser.fromFd(OneWay(data) if kind == 'stream' else io.BytesIO(data))


def compare(env, d, ks, key, make, backend, ways, label=''):
    cs, idx = make()
    v0, s0 = attempt(env, lambda: verify.verifyDEP(d, ks, key, cs, idx, backend))
    env.reach('verdict ' + v0)
    for kind, chunk, nprocs, pool in ways:
        cs, idx = make()
        v, s = attempt(env, lambda: verify.verifyParsedDEP(
            parser(kind, d, nprocs), ks, key, cs, idx, c.Pool() if pool else None, nprocs, chunk, backend))
        env.check(v == v0, 'same verdict for every chunk size and work split' + label)
        if v == 'ok' and v0 == 'ok':
            same(env, s, s0, label)


def same(env, a, b, label):
    """state by state, without trusting the comparison of the code under test"""
    env.check(len(a.cashRegisters) == len(b.cashRegisters), 'same number of registers' + label)
    for x, y in zip(a.cashRegisters, b.cashRegisters):
        for f in ('lastReceiptJWS', 'startReceiptJWS', 'needRestoreReceipt', 'chainNextTo', 'lastTurnoverCounter'):
            env.check(getattr(x, f) == getattr(y, f), 'same register state: ' + f + label)
    p, q = a.writeStateToJson()['usedReceiptIds'], b.writeStateToJson()['usedReceiptIds']
    env.check(p['backendType'] == q['backendType'], 'same kind of receipt ID set' + label)
    p, q = p['backendData'], q['backendData']
    if isinstance(p, list):
        p, q = sorted(p), sorted(q)
    env.check(p == q, 'same used receipt IDs' + label)


DEFECTS = ['none', 'dup', 'chain', 'counter', 'key', 'reg', 'time', 'system', 'text']


def defect(env, specs, jws, what, i, m):
    """the receipts with one thing wrong (possibly) at receipt i; the rest is chained to it"""
    s = specs[i]
    if what == 'dup':
        s.rid = env.choose('of', ['p', 'r0', 'r1', 'r2'])
    elif what == 'chain':
        s.chain = c.b64(env.bytes('chain', 8))
    elif what == 'counter':
        s.total = env.int('off', -3, 3) + s.value()
    elif what == 'key':
        s.signed = 'B'
    elif what == 'reg':
        s.reg = 'reg' + env.str('reg', 1, 'ab')
    elif what == 'time':
        s.ts = '2017-03-01T12:00:' + env.chars('time', ['012', '0'])
    elif what == 'system':
        s.zda, s.serial = 'AT0', 'U:1'


def specs_for(env, m, n, kinds, signs):
    out = []
    for i in range(n):
        sums = list(c.ZERO)
        sums[(2 * i) % 5] = env.chars('a%d' % i, [['0', ',', '0', '01'], ['-', '01', ',', '2', '0'], ['01', ',', '0', '0']][i % 3])
        s = S('r%d' % i, sums, env.choose('k%d' % i, kinds), env.choose('s%d' % i, signs), ts='2017-03-01T12:00:1%d' % i,
              size=[8, 5, 12][i % 3])
        if m.prevstart is not None:
            s.zda, s.serial = 'AT0', 'U:1'
        out.append(s)
    return out


def run(env, n, kinds, signs, states, defects, ways, backends=(UNIQUE, SORTED), key=True):
    backend = env.choose('backend', list(backends))
    m, make = prior(env, states, backend)
    specs = specs_for(env, m, n, kinds, signs)
    what = env.choose('defect', defects)
    if what != 'none':
        i = env.choose('at', list(range(n)))
        defect(env, specs, None, what, i, m)
    if specs and m.chain_next is not None and specs[0].chain is None:
        specs[0].chain = m.chain_next
    before = m.lastjws if m.lastjws is not None else m.prevstart[1] if m.prevstart is not None else None
    jws, _ = dep.build(specs, before, m.total)
    if what == 'text':
        j = jws[i]
        jws[i] = env.choose('broken', [j[:-1], j.replace('.', ':'), '', 'a.b.c', j + '='])
    ks = c.key_store('LEAF', 'LEAFB')
    ks.putKey('U:1', c.PUB['A'], None)
    compare(env, dep.dep_dict([('', [], jws)]), ks, c.KEY if key else None, make, backend, ways)


def histories(env):
    """outages, kinds and totals: everything signed by the right key"""
    T = env.thorough
    n = env.choose('n', [2, 3])
    run(env, n, ['N', 'T', 'S'] if T or n == 2 else ['N', 'S'], ['A', None],
        ['fresh', 'plain', 'unsigned', 'outstanding', 'pending', 'cluster'] if T or n == 2 else ['plain', 'unsigned'],
        ['none'], WAYS if T else FEW, (UNIQUE,), env.choose('key', [1, 0]) if T else 1)


def defects(env):
    """one thing wrong somewhere, in otherwise good DEPs"""
    T = env.thorough
    run(env, 3, ['N', 'S'] if T else ['N'], ['A', None] if T else ['A'], ['fresh', 'plain', 'pending', 'cluster'] if T else ['plain', 'pending'],
        DEFECTS[1:], WAYS if T else FEW)


def long(env):
    """five receipts, most of them fixed, unusual things at the package borders"""
    T = env.thorough
    m = dep.Model(c.KEY)
    specs = []
    u = env.choose('u', list(range(1, 5)))
    k = env.choose('kind', ['N', 'S', 'T'])
    z = env.choose('restored', [0, 1, 2])
    for i in range(5):
        s = S('r%d' % i, c.ZERO, 'N', 'A', ts='2017-03-01T12:00:1%d' % i)
        if i >= u:
            s.sums = ('1,00', '0,00', env.chars('a%d' % i, ['-', '01', ',', '0', '0']) if i < 3 or T else '-1,00', '0,00', '0,00')
        if i == u:
            s.kind, s.signed = k, None
        elif z and i == u + z:
            s.sums = c.ZERO
        specs.append(s)
    what = env.choose('defect', ['none', 'dup', 'counter'])
    if what != 'none':
        defect(env, specs, None, what, env.choose('at', [1, 2, 3, 4] if T else [2, 4]), m)
    jws, _ = dep.build(specs)
    compare(env, dep.dep_dict([('', [], jws)]), c.key_store('LEAF'), c.KEY, lambda: (None, None), UNIQUE,
            WAYS if T else WAYS[:10])


def groups(env):
    """several groups with certificates"""
    m = dep.Model(c.KEY)
    specs = [S('r%d' % i, ('%d,00' % i, '0,00', '0,00', '0,00', '0,00'), ts='2017-03-01T12:00:1%d' % i) for i in range(4)]
    names = [env.choose('cert%d' % i, ['LEAF', 'LEAFB', 'FAKE', 'LEAFC']) for i in range(2)]
    sign = [env.choose('by%d' % i, ['A', 'B', 'C']) for i in range(2)]
    split = env.choose('split', [0, 1, 2, 3])
    serial = dict(A='2f5a81', B='1234', C='1234')
    for i, s in enumerate(specs):
        g = 0 if i < split else 1
        s.signed = sign[g]
        s.serial = serial[sign[g]]
    jws, _ = dep.build(specs)
    chain = [['INT', 'ROOT'], []]
    d = dep.dep_dict([(names[0], chain[env.choose('chain', [0, 1])], jws[:split]), (names[1], ['INT'], jws[split:])])
    ks = c.key_store(*env.choose('store', [['ROOT'], ['LEAF', 'INT'], ['LEAFB']]))
    compare(env, d, ks, c.KEY, lambda: (None, None), UNIQUE, WAYS if env.thorough else FEW)


def chunks_of(kind, chunk, nprocs, parts):
    """which groups the chunks consist of"""
    if kind in ('dict', 'full') and chunk == 0:
        if nprocs == 1:
            return [[g] for g, p in enumerate(parts) if p]
        chunk = -(-sum(len(p) for p in parts) // nprocs)
    order = [g for g, p in enumerate(parts) for x in p]
    return [order[k:k + chunk] for k in range(0, len(order), chunk)] if chunk else [order]


def mixed(env):
    """several groups, some of them without certificate"""
    specs = [S('r%d' % i, ts='2017-03-01T12:00:1%d' % i) for i in range(4)]
    n = env.choose('n', [2, 3])
    names = [env.choose('cert%d' % i, ['LEAF', '']) for i in range(n)]
    if '' not in names:
        env.assume(False)
    cut = env.choose('cut', [[1, 2], [0, 2], [2, 3]])
    jws, _ = dep.build(specs)
    if n == 2:
        parts = [jws[:cut[1]], jws[cut[1]:]]
    else:
        parts = [jws[:cut[0]], jws[cut[0]:cut[1]], jws[cut[1]:]]
    d = dep.dep_dict([(names[i], [], parts[i]) for i in range(n)])
    ks = c.key_store('LEAF')
    v0, s0 = attempt(env, lambda: verify.verifyDEP(d, ks, c.KEY, None, None, UNIQUE))
    deviates = False
    first = None
    for kind, chunk, nprocs, pool in WAYS:
        v, s = attempt(env, lambda: verify.verifyParsedDEP(
            parser(kind, d, nprocs), ks, c.KEY, None, None, c.Pool() if pool else None, nprocs, chunk, UNIQUE))
        # the deviation that is known: a chunk made of (a part of) a single group
        # without certificate is accepted, other groups are not looked at
        alone = True
        for ch in chunks_of(kind, chunk, nprocs, parts):
            if '' in [names[g] for g in ch] and len(set(ch)) > 1:
                alone = False
        if v0 == 'rejected' and alone and v == 'ok':
            deviates = True
        else:
            env.check(v == v0, 'same verdict for every chunk size and work split')
        if v == 'ok':
            first = first or s
            same(env, s, first, '')
    env.check(not deviates, 'several groups, one without certificate: rejected for every chunk size')


def empty(env):
    """groups without receipts, DEPs without receipts"""
    specs = [S('r%d' % i, ts='2017-03-01T12:00:1%d' % i) for i in range(2)]
    jws, _ = dep.build(specs)
    parts = [jws[:env.choose('n%d' % i, [0, 1, 2])] if i == 0 else [] for i in range(1)]
    n = env.choose('groups', [1, 2, 3])
    where = env.choose('where', list(range(n)))
    d = dep.dep_dict([('LEAF', [], parts[0] if i == where else []) for i in range(n)])
    compare(env, d, c.key_store('LEAF'), c.KEY, lambda: (None, None), UNIQUE, WAYS)


CASES = [dict(name='histories', fn=histories, seconds=dict(quick=90, thorough=300)),
         dict(name='defects', fn=defects, seconds=dict(quick=90, thorough=240)),
         dict(name='long', fn=long, seconds=dict(quick=60, thorough=120)),
         dict(name='groups', fn=groups, seconds=dict(quick=60, thorough=60)),
         dict(name='mixed', fn=mixed), dict(name='empty', fn=empty)]
BOUNDS = ('DEPs of 2-5 receipts of every kind, signed or not, with arbitrary one-digit amounts and an arbitrary running total, '
          'with one defect of any sort at any receipt, from fresh, ordinary, unsigned, outstanding, pending-chain and cluster '
          'states; in one to three groups with and without certificates; verified in one go and in memory, from files and from '
          'streams with chunk sizes 0-5 and 1-3 work packages, with and without a (pickling) process pool')
OUTSIDE = 'larger chunk sizes and package counts; the order in which a real pool runs the packages (they share no state)'
ASSUMPTIONS = ['ideal signatures and hashes; a pool delivers pickled arguments and results in order',
               'which of several errors is reported first may depend on the split: the verdict is what counts']
