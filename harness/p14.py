"""P14 Verification state survives storage and failed runs."""
import copy, json
from librksv import depparser, receipt, verification_state, verify
from . import common as c, dep
from .p13 import parser, defect

S = c.Spec
VS = verification_state
CR = VS.CashRegisterState
FIELDS = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt', 'chainNextTo')
BACKENDS = (VS.UsedReceiptIdsUnique, VS.UsedReceiptIdsSortedNatural)
TEXT = 'aA0.=_-+/ "\\äß\n'


def text(env, name):
    return env.str(name, env.choose('len ' + name, [0, 1, 2]), TEXT)


def some(env, name):
    """None or a text"""
    return None if env.choose('no ' + name, [0, 1]) else text(env, name)


def snapshot(cs):
    """the content of a state, taken without the functions under test"""
    u = copy.deepcopy(cs.usedReceiptIds)
    return ([[getattr(r, f) for f in FIELDS] for r in cs.cashRegisters], type(u).__name__,
            dict((k, sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in sorted(vars(u).items())), u)


def equal(env, a, b, label, ids=()):
    env.check(len(a[0]) == len(b[0]), label + ': registers')
    for x, y in zip(a[0], b[0]):
        for f, p, q in zip(FIELDS, x, y):
            env.check(p == q, label + ': ' + f)
            env.check((p is None) == (q is None) and isinstance(p, bool) == isinstance(q, bool), label + ': type of ' + f)
    env.check(a[1] == b[1], label + ': kind of receipt ID set')
    if a[2] == b[2]:
        env.reach('same representation')
    else:
        # another representation: what do the sets know?
        for q in list(ids) + ['', 'zz9']:
            res = []
            for u in (a[3], b[3]):
                try:
                    u.check(q)
                    res.append('free')
                except VS.DuplicateReceiptIdException:
                    res.append('used')
            env.check(res[0] == res[1], label + ': used receipt IDs')
        try:
            same = json.dumps(a[3].writeStateToJson(), sort_keys=True) == json.dumps(b[3].writeStateToJson(), sort_keys=True)
        except Exception:
            same = False
        env.check(same, label + ': used receipt IDs')


def roundtrip(env):
    """one register with arbitrary content, written, serialised and read"""
    backend = env.choose('backend', list(BACKENDS))
    cs = VS.ClusterState(backend)
    n = env.choose('registers', [0, 1, 2])
    for i in range(n):
        r = CR()
        if i == n - 1:
            r.startReceiptJWS = some(env, 'start')
            r.lastReceiptJWS = some(env, 'last')
            r.chainNextTo = some(env, 'next')
        else:
            r.startReceiptJWS = 'a.b.%d' % i
            r.lastReceiptJWS = 'b.c.%d' % i
        r.lastTurnoverCounter = env.int('total%d' % i, -(1 << 127), (1 << 127) - 1)
        r.needRestoreReceipt = env.choose('outage%d' % i, [False, True])
        cs.cashRegisters.append(r)
    for i in range(env.choose('ids', [0, 1, 2]) if n < 2 else 1):
        cs.usedReceiptIds.add(env.str('id%d' % i, i + 1, 'a0' if i else TEXT))
    back(env, cs)


def back(env, cs):
    before = snapshot(cs)
    try:
        t = json.dumps(cs.writeStateToJson())
        new = VS.ClusterState.readStateFromJson(json.loads(t))
    except Exception:
        env.fail('a state can be written and read back')
        return
    equal(env, before, snapshot(new), 'the state read back equals the state written')
    equal(env, before, snapshot(cs), 'writing does not change the state')
    # once more
    try:
        t2 = json.loads(json.dumps(new.writeStateToJson()))
        again = VS.ClusterState.readStateFromJson(t2)
    except Exception:
        env.fail('a state read back can be written again')
        return
    equal(env, before, snapshot(again), 'a state read twice equals the state written')
    # the register read is a state like any other
    for a, b in zip(cs.cashRegisters, new.cashRegisters):
        env.check(a == b, 'registers compare equal after reading')


def idset(env):
    """identifiers used by a written set are used in the set read back"""
    backend = env.choose('backend', list(BACKENDS))
    cs = VS.ClusterState(backend)
    n = env.choose('ids', [1, 2, 3])
    ids = [env.str('id%d' % i, env.choose('len%d' % i, [1, 2]), 'aB9') for i in range(n)]
    for x in ids:
        cs.usedReceiptIds.add(x)
    try:
        new = VS.ClusterState.readStateFromJson(json.loads(json.dumps(cs.writeStateToJson())))
    except Exception:
        env.fail('a state can be written and read back')
        return
    q = env.str('query', env.choose('lenq', [1, 2]), 'aB9')
    res = []
    for u in (cs.usedReceiptIds, new.usedReceiptIds):
        try:
            u.check(q)
            res.append('free')
        except VS.DuplicateReceiptIdException:
            res.append('used')
    env.check(res[0] == res[1], 'the set read back knows the same identifiers')


VALUES = [None, True, False, 0, 7, -1, 1.5, '', 'x', [], {}, ['x'], [None], [['x']], [{}], {'x': 1}, [1, 'x'], 'USED_RECEIPT_IDS_INVALID']
DROP = '(element missing)'


def text_or_none(v):
    return v is None or isinstance(v, str)


def good_unique(v):
    return isinstance(v, list) and all(isinstance(x, str) for x in v)


def good_sorted(v):
    return isinstance(v, dict) and 'minId' in v and 'maxId' in v and text_or_none(v['minId']) and text_or_none(v['maxId'])


def number(v):
    return isinstance(v, int)


def boolean(v):
    return isinstance(v, bool)


GOOD = dict(startReceiptJWS=text_or_none, lastReceiptJWS=text_or_none, chainNextTo=text_or_none,
            lastTurnoverCounter=number, needRestoreReceipt=boolean)


def well_formed(j):
    """independent description of the stored form"""
    if not isinstance(j, dict) or not isinstance(j.get('cashRegisters'), list):
        return False
    for r in j['cashRegisters']:
        if not isinstance(r, dict):
            return False
        for f in FIELDS:
            if f not in r or not GOOD[f](r[f]):
                return False
    u = j.get('usedReceiptIds')
    if not isinstance(u, dict) or 'backendType' not in u or 'backendData' not in u:
        return False
    t = u['backendType']
    if not isinstance(t, str):
        return False
    if t == 'USED_RECEIPT_IDS_UNIQUE':
        return good_unique(u['backendData'])
    if t == 'USED_RECEIPT_IDS_SORTED_NATURAL':
        return good_sorted(u['backendData'])
    return False


def readback(env, j):
    try:
        cs = VS.ClusterState.readStateFromJson(j)
    except VS.StateParseException:
        env.check(not well_formed(j), 'a well-formed state is read')
        return None
    except Exception:
        env.fail('malformed states are rejected with state parse errors only')
        return None
    env.check(well_formed(j), 'malformed states are rejected')
    for r, d in zip(cs.cashRegisters, j['cashRegisters']):
        for f in FIELDS:
            env.check(getattr(r, f) == d[f], 'elements are read as they are: ' + f)
    env.check(len(cs.cashRegisters) == len(j['cashRegisters']), 'all registers are read')
    return cs


def malformed(env):
    """one element of a stored state replaced by a value of another type"""
    backend = env.choose('backend', list(BACKENDS))
    cs = VS.ClusterState(backend)
    for i in range(2):
        r = CR()
        r.startReceiptJWS, r.lastReceiptJWS, r.lastTurnoverCounter = 'a.b.c', 'd.e.f', 17 + i
        cs.cashRegisters.append(r)
    cs.usedReceiptIds.add('r1')
    j = json.loads(json.dumps(cs.writeStateToJson()))
    where = env.choose('where', ['root', 'cashRegisters', 'register'] + list(FIELDS) +
                       ['usedReceiptIds', 'backendType', 'backendData', 'minId', 'maxId', 'id', 'extra'])
    v = env.choose('value', VALUES + [DROP])
    if where == 'root':
        env.assume(v != DROP)
        j = v
    else:
        if where in ('cashRegisters', 'usedReceiptIds'):
            d, k = j, where
        elif where == 'register':
            d, k = j['cashRegisters'], env.choose('i', [0, 1])
        elif where in FIELDS:
            d, k = j['cashRegisters'][env.choose('i', [0, 1])], where
        elif where in ('backendType', 'backendData'):
            d, k = j['usedReceiptIds'], where
        elif where == 'extra':
            d, k = env.choose('d', [j, j['usedReceiptIds'], j['cashRegisters'][0]]), 'extra'
        elif where == 'id':
            d, k = j['usedReceiptIds']['backendData'], 0
        else:
            d, k = j['usedReceiptIds']['backendData'], where
        if where == 'id' and backend is not BACKENDS[0] or where in ('minId', 'maxId') and backend is BACKENDS[0]:
            env.assume(False)
        if v == DROP:
            if where == 'extra':
                env.assume(False)
            del d[k]
        else:
            d[k] = v
    readback(env, j)


def types(env):
    """the two kinds of receipt ID sets with each other's data and with arbitrary type names"""
    t = env.choose('t', ['USED_RECEIPT_IDS_UNIQUE', 'USED_RECEIPT_IDS_SORTED_NATURAL', ''])
    if t == '':
        t = env.choose('pre', ['', 'USED_RECEIPT_IDS_UNIQU']) + env.str('t', 1, 'eEX_ ')
    data = env.choose('data', [[], ['a', 'b'], ['a', 'a'], {'minId': 'a', 'maxId': 'b'}, {'minId': None, 'maxId': None}, {'minId': 'a'}, None])
    readback(env, {'cashRegisters': [], 'usedReceiptIds': {'backendType': t, 'backendData': data}})


def failed(env):
    """a DEP with something wrong somewhere: the state passed in stays as it was"""
    T = env.thorough
    backend = env.choose('backend', list(BACKENDS))
    st = env.choose('state', ['plain', 'unsigned', 'outstanding', 'pending', 'second', 'new', 'none'] if T else
                    ['unsigned', 'pending', 'second', 'new'])
    p = S('p', signed=None if st == 'unsigned' else 'A', zda='AT0', serial='U:1')
    m = dep.Model(c.KEY, (p, dep.build([p])[0][0]), total=env.int('total', -(1 << 38), 1 << 38),
                  restore=st == 'outstanding', ids=['p'], chain_next=c.b64(bytes(range(8))) if st == 'pending' else None)
    m.startjws = m.lastjws
    cs = None
    idx = None
    if st != 'none':
        cs = VS.ClusterState(backend)
        if st == 'second':
            q = CR()
            q.startReceiptJWS, q.lastReceiptJWS = 'q.q.q', 'r.r.r'
            cs.cashRegisters.append(q)
        cs.cashRegisters.append(dep.state_for(m))
        cs.usedReceiptIds = dep.used_for(m, backend)
        idx = len(cs.cashRegisters) - 1
        if st == 'new':
            # a further register of the cluster
            m2 = dep.Model(c.KEY, prevstart=(p, m.lastjws), ids=['p'])
            idx = env.choose('idx', [None, 1])
            m = m2
    else:
        m = dep.Model(c.KEY)
    n = 3
    specs = []
    for i in range(n):
        first = i == 0 and m.last is None
        sums = c.ZERO if first else (env.chars('a%d' % i, ['-', '01', ',', '0', '0']), '0,00', '0,00', '0,00', '0,00')
        s = S('r%d' % i, sums, 'N', 'A', ts='2017-03-01T12:00:1%d' % i, zda='AT0', serial='U:1')
        if not first:
            s.kind = env.choose('k%d' % i, ['N', 'S']) if T else 'N'
            if i == 1:
                s.signed = env.choose('s%d' % i, ['A', None])
        specs.append(s)
    what = env.choose('defect', ['dup', 'chain', 'counter', 'key', 'time', 'text', 'json'])
    i = env.choose('at', list(range(n)) if T else [0, 2])
    if what not in ('text', 'json'):
        defect(env, specs, None, what, i, m)
    if m.chain_next is not None and specs[0].chain is None:
        specs[0].chain = m.chain_next
    before = m.lastjws if m.lastjws is not None else m.prevstart[1] if m.prevstart is not None else None
    jws, _ = dep.build(specs, before, m.total)
    if what == 'text':
        jws[i] = jws[i][:-1]
    ks = c.key_store('LEAF')
    ks.putKey('U:1', c.PUB['A'], None)
    d = dep.dep_dict([('', [], jws)])
    if what == 'json':
        d = env.choose('d', [[], {}, {'Belege-Gruppe': []}, dict(d, **{'Belege-Gruppe': d['Belege-Gruppe'] + [7]})])
        env.assume(i == 0)
    old = snapshot(cs) if cs is not None else None
    ways = [('dep', 0, 1, 0), ('dict', 2, 2, 1), ('dict', 1, 2, 0)] + ([('file', 1, 1, 0), ('stream', 2, 1, 0)] if T else [])
    kind, chunk, nprocs, pool = env.choose('way', ways)
    try:
        if kind == 'dep':
            r = verify.verifyDEP(d, ks, c.KEY, cs, idx, backend)
        else:
            r = verify.verifyParsedDEP(parser(kind, d, nprocs), ks, c.KEY, cs, idx, c.Pool() if pool else None, nprocs,
                                       chunk, backend)
    except (receipt.ReceiptException, depparser.DEPException):
        env.reach('verification fails')
        if cs is None:
            return
        new = snapshot(cs)
        if st == 'new' and len(new[0]) == len(old[0]) + 1:
            x = new[0].pop()
            env.check(x == [None, None, 0, False, None], 'a register added by a failed verification is empty')
        equal(env, old, new, 'a failed verification leaves the state unchanged', ['p'] + [s.rid for s in specs])
        return
    except Exception:
        env.fail('verification fails with verification errors only')
        return
    if cs is not None:
        # accepted: the other registers are untouched
        new = snapshot(r)
        k = len(new[0]) - 1
        env.check(new[0][:k] == old[0][:k], 'other registers are untouched')


def independent(env):
    """states in use do not influence each other; neither do the copies handed out"""
    backend = env.choose('backend', list(BACKENDS))
    css = [VS.ClusterState(backend) for _ in (0, 1)]
    idsets = [backend(), backend()]
    want = [[], []]
    known = [[], [], [], []]
    try:
        for i in range(3):
            k = env.choose('which%d' % i, [0, 1])
            op = env.choose('op%d' % i, ['add', 'register', 'used', 'copy'])
            if op == 'add':
                css[k].addNewCashRegister()
                css[k].cashRegisters[-1].startReceiptJWS = 's.%d.t' % i
                want[k].append(['s.%d.t' % i, None, 0, False, None])
            elif op == 'used':
                s = env.choose('set%d' % i, [css[k].usedReceiptIds, idsets[k]])
                s.add('r%d' % i)
                known[k if s is css[k].usedReceiptIds else 2 + k].append('r%d' % i)
            elif op == 'copy':
                # states handed out for a verification are copies
                if want[k]:
                    start, reg, used = css[k].getCashRegisterInfo(len(want[k]) - 1)
                    reg.lastTurnoverCounter = 99
                    reg.lastReceiptJWS = 'x.y.z'
                    used.add('r%d' % i)
                    if env.choose('update%d' % i, [0, 1]):
                        css[k].updateCashRegisterInfo(len(want[k]) - 1, reg, used)
                        want[k][-1][1:3] = ['x.y.z', 99]
                        known[k].append('r%d' % i)
            elif want[k]:
                v = env.int('total%d' % i, -(1 << 63), 1 << 63)
                css[k].cashRegisters[0].lastTurnoverCounter = v
                want[k][0][2] = v
    except Exception:
        env.fail('states can be used')
        return
    for k in (0, 1):
        env.check(len(css[k].cashRegisters) == len(want[k]), 'states are independent: registers')
        for r, w in zip(css[k].cashRegisters, want[k]):
            for f, x in zip(FIELDS, w):
                env.check(getattr(r, f) == x, 'states are independent: ' + f)
    for u, ids in zip([css[0].usedReceiptIds, css[1].usedReceiptIds] + idsets, known):
        for q in ('r0', 'r1', 'r2', 'r3'):
            used = q in ids if backend is BACKENDS[0] else len([x for x in ids if x >= q]) > 0
            try:
                u.check(q)
                got = False
            except VS.DuplicateReceiptIdException:
                got = True
            env.check(got == used, 'states are independent: used receipt IDs')


CASES = [dict(name='roundtrip', fn=roundtrip), dict(name='idset', fn=idset), dict(name='malformed', fn=malformed),
         dict(name='types', fn=types), dict(name='independent', fn=independent), dict(name='failed', fn=failed, seconds=dict(quick=90, thorough=400))]
BOUNDS = ('states of 0-2 registers with arbitrary 128 bit totals, texts of 0-2 characters (quotes, backslashes, line breaks, '
          'umlauts) or None, 0-3 used identifiers of 1-2 characters in both kinds of sets; every element of a stored state '
          'replaced by one of 18 values of other types or left out; failed verifications of 3 receipts with one defect anywhere, '
          'two states used alternately; from 7 kinds of states, in one go, in chunks and packages')
OUTSIDE = 'longer texts and sets; JSON texts that are no JSON at all (rejected by the JSON library before)'
ASSUMPTIONS = ['a JSON boolean in place of the integer total is tolerated (a Python boolean is an integer)']
