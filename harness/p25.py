"""P25 The command line verifier reports the verdict and the state of the DEP."""
import json
from librksv import verification_state
from . import common as c, dep, tool

S = c.Spec
VS = verification_state
tool.load('verify')
F = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt', 'chainNextTo')
SAID = 'success is reported exactly for a DEP that obeys the rules'
ZK = dict(zda='AT0', serial='U:1')


def ks(key):
    k = c.key_store('LEAF')
    k.putKey('U:1', c.PUB['A'], None)
    return json.dumps(k.writeStoreToJson(None if key is None else c.b64(key)))


def options(env, how):
    """options of the tool (without state) by way of processing"""
    return {'plain': [], 'whole': ['chunksize', '0'], 'small': ['chunksize', '1'], 'two': ['par', '2'],
            'twosmall': ['par', '2', 'chunksize', '1'], 'twowhole': ['par', '2', 'chunksize', '0'],
            'one': ['par', '1', 'chunksize', '2', 'json'], 'json': ['json']}[how]


HOW = ['plain', 'whole', 'small', 'two', 'twosmall', 'twowhole', 'one', 'json']


def deviate(env, specs):
    """one deviation (or none) that matters for the verdict"""
    what = env.choose('what', ['free', 'chain', 'reg', 'id', 'unsigned'])
    s = specs[-1]
    if what == 'chain':
        s.chain = c.b64(env.bytes('chain', 8))
    elif what == 'reg':
        s.reg = env.chars('reg', ['rs', 'e', 'g'])
    elif what == 'id':
        s.rid = env.chars('rid', ['rs', '01'])
    elif what == 'unsigned':
        s.signed = None


def outcome(env, r, bad, state):
    """judges what was printed; returns the state"""
    said = 'Verification successful.' in r.err
    env.check(said == (not bad), SAID)
    env.check((r.status == 0) == (not bad), 'the exit status says whether the DEP obeys the rules')
    if bad or not state:
        env.check(len(r.out) == 0, 'nothing else is printed')
        return None
    try:
        return json.loads(r.out)
    except ValueError:
        env.fail('the state is printed as JSON')


def compare(env, d, m, label='the printed state is the state after the DEP'):
    want = (m.startjws, m.lastjws, m.total, m.restore, m.chain_next)
    for f, w in zip(F, want):
        if f == 'lastTurnoverCounter' and m.key is None:
            continue
        env.check(d[f] == w, label + ': ' + f)


def fresh(env):
    """no start state"""
    how = env.choose('how', HOW)
    m = dep.Model(env.choose('key', [c.KEY, None]))
    specs = [S('r0'), S('r1', (env.choose('sign', ['', '-']) + env.chars('a', ['0', ',', '0', '07']),) + c.ZERO[1:], env.choose('kind', ['N', 'S']), ts=c.TS % 1)]
    deviate(env, specs)
    jws, _ = dep.build(specs)
    if env.choose('counter', ['right', 'any']) == 'any' and specs[1].kind == 'N':
        specs[1].ctr = c.enc_counter(c.KEY, specs[1].reg, specs[1].rid, env.int('value', -(1 << 38), 1 << 38), 8)
        jws, _ = dep.build(specs)
    bad = []
    for s, j in zip(specs, jws):
        bad = bad or m.issues(s, j)
    idx = env.choose('index', [None, '0', '1'] if how == 'plain' or env.thorough else [None])
    r = tool.run('verify', ([] if idx is None else [idx]) + options(env, how) + ['ks.json', 'dep.json'],
                 {'ks.json': ks(m.key), 'dep.json': json.dumps(dep.dep_dict([('', [], jws)]))})
    # without a state there is no register 1
    outcome(env, r, bool(bad) or idx == '1', False)


def resumed(env):
    """one of two registers goes on"""
    how = env.choose('how', HOW if env.thorough else ['plain', 'whole', 'twosmall'])
    models, regs, ids = [], [], []
    anchor = None
    cs = VS.ClusterState(VS.UsedReceiptIdsUnique)
    for i in range(2):
        s = S('s%d' % i, **ZK)
        sj, _ = dep.build([s], anchor)
        anchor = sj[0]
        l = S('l%d' % i, ('1,00',) + c.ZERO[1:], ts=c.TS % i, **ZK)
        total = env.int('total%d' % i, -(1 << 38), 1 << 38)
        lj, _ = dep.build([l], sj[0], total)
        m = dep.Model(c.KEY, (l, lj[0]), total=total)
        m.startjws = sj[0]
        models.append(m)
        cs.cashRegisters.append(dep.state_for(m))
        ids += ['s%d' % i, 'l%d' % i]
    for x in ids:
        cs.usedReceiptIds.add(x)
    at = env.choose('at', [0, 1, 2])
    if at == 2:
        m = dep.Model(c.KEY, prevstart=(S('s1', **ZK), anchor), ids=ids)
        s = S('n', **ZK)
        s.chain = c.chain_value(anchor)
    else:
        m = models[at]
        m.ids = list(ids)
        s = S('n', (env.chars('a', ['0', ',', '0', '05']),) + c.ZERO[1:], ts=c.TS % 5, **ZK)
        s.chain = c.chain_value(m.lastjws)
    specs = [s]
    deviate(env, specs)
    jws, _ = dep.build(specs, None, m.total)
    arg = {0: ['0'], 1: env.choose('arg', [['1'], ['continue']]), 2: env.choose('new', [[], ['2']])}[at]
    before = [cs.cashRegisters[i].__dict__.copy() for i in range(2)]
    old = json.dumps(cs.writeStateToJson())
    bad = m.issues(s, jws[0])
    r = tool.run('verify', ['state'] + arg + options(env, how) + ['ks.json', 'dep.json'],
                 {'ks.json': ks(c.KEY), 'dep.json': json.dumps(dep.dep_dict([('', [], jws)]))}, old)
    d = outcome(env, r, bool(bad), True)
    if d is None:
        return
    regs = d['cashRegisters']
    env.check(len(regs) == max(2, at + 1), 'a register is added exactly if asked for')
    compare(env, regs[at], m)
    for i in range(2):
        if i != at:
            for f in F:
                env.check(regs[i][f] == before[i][f], 'other registers are untouched')
    try:
        again = VS.ClusterState.readStateFromJson(d)
    except Exception:
        env.fail('the printed state can be used')
        return
    for x in ids + [s.rid]:
        try:
            again.usedReceiptIds.check(x)
            env.fail('the identifiers of all registers are kept')
        except VS.DuplicateReceiptIdException:
            pass


WRONG = [[], ['state', 'x'], ['ks.json'], ['par', '0', 'ks.json', 'dep.json'], ['par', 'x', 'ks.json', 'dep.json'],
         ['chunksize', '-1', 'ks.json', 'dep.json'], ['chunksize', 'x', 'ks.json', 'dep.json'],
         ['state', 'ks.json', 'dep.json', 'x'], ['ks.json', 'dep.json', 'x', 'y', 'z'], ['state', '7', 'ks.json', 'dep.json'],
         ['state', '-1', 'ks.json', 'dep.json'], ['state', 'continue', 'ks.json', 'dep.json'], ['ks.json', 'none.json'], ['none.json', 'dep.json']]


def usage(env):
    """wrong arguments never look like success; 'state' alone prints an empty state"""
    specs = [S('r0'), S('r1', ts=c.TS % 1)]
    jws, _ = dep.build(specs)
    files = {'ks.json': ks(c.KEY), 'dep.json': json.dumps(dep.dep_dict([('', [], jws)]))}
    args = env.choose('args', WRONG + [['state']])
    cs = VS.ClusterState()
    if args in (['state', '-1', 'ks.json', 'dep.json'], ['state', '7', 'ks.json', 'dep.json']) and env.choose('registers', [0, 1]):
        # negative numbers do not count from the end
        specs = [S('r0', **ZK), S('r1', ts=c.TS % 1, **ZK)]
        cs.cashRegisters.append(VS.CashRegisterState())
        cs.cashRegisters[0].startReceiptJWS = dep.build([S('z', **ZK)])[0][0]
        cs.cashRegisters.append(VS.CashRegisterState())
        jws, _ = dep.build(specs, cs.cashRegisters[0].startReceiptJWS)
        files['dep.json'] = json.dumps(dep.dep_dict([('', [], jws)]))
    empty = json.dumps(cs.writeStateToJson())
    r = tool.run('verify', args, files, empty)
    env.check('Verification successful.' not in r.err, 'wrong arguments never look like success')
    env.check(all(r.files[n] == files[n] for n in files) and len(r.files) == 2, 'no file is changed')
    if args == ['state']:
        try:
            d = VS.ClusterState.readStateFromJson(json.loads(r.out))
        except Exception:
            env.fail('an empty state is printed')
            return
        env.check(d.writeStateToJson() == VS.ClusterState().writeStateToJson(), 'an empty state is printed')
        r = tool.run('verify', ['state', 'ks.json', 'dep.json'], files, r.out)
        m = dep.Model(c.KEY)
        for s, j in zip(specs, jws):
            m.issues(s, j)
        d = outcome(env, r, False, True)
        compare(env, d['cashRegisters'][0], m)
    else:
        env.check('{' not in r.out, 'wrong arguments never look like success')


def certs(env):
    """groups of several devices with their certificates, in any order of the elements"""
    how = env.choose('how', HOW if env.thorough else ['plain', 'whole', 'small', 'twosmall', 'twowhole'])
    z = dict(zda='AT1')
    specs = [S('r0', serial='2f5a81', signed='A', **z), S('r1', ts=c.TS % 1, serial='2f5a81', signed='A', **z),
             S('r2', ('0,0' + env.str('a', 1, '059'),) + c.ZERO[1:], ts=c.TS % 2, serial='1234', signed='B', **z)]
    jws, _ = dep.build(specs)
    ok = True
    groups = []
    for i, (name, recs) in enumerate((('LEAF', jws[:2]), ('LEAFB', jws[2:]))):
        what = env.choose('cert%d' % i, ['right', 'other', 'none', 'nochain'])
        cert = name if what in ('right', 'nochain') else '' if what == 'none' else 'LEAFB' if i == 0 else 'LEAF'
        ok = ok and what == 'right'
        groups.append((cert, ['INT'] if what in ('right', 'other') else [], recs))
    d = dep.dep_dict(groups)
    order = env.choose('order', [0, 1, 2])
    if order:
        for g in d['Belege-Gruppe']:
            for n in ('Signaturzertifikat', 'Zertifizierungsstellen')[:order]:
                x = g.pop(n)
                g[n] = x
    store = json.dumps(c.key_store('INT').writeStoreToJson(c.b64(c.KEY)))
    r = tool.run('verify', options(env, how) + ['ks.json', 'dep.json'], {'ks.json': store, 'dep.json': json.dumps(d)})
    outcome(env, r, not ok, False)


CASES = [dict(name='fresh', fn=fresh), dict(name='certs', fn=certs), dict(name='resumed', fn=resumed), dict(name='usage', fn=usage)]
BOUNDS = ('DEPs of two receipts without a state and of one receipt for each register of a cluster of two (or a new one), with '
          'every amount of a digit, every counter and chaining value, other register ids, identifiers and signature failures; '
          'all option combinations (par, chunksize, json, state, index, continue); DEPs of two groups with right, exchanged or missing certificates, before and after the receipts; 15 argument lists')
OUTSIDE = 'real worker processes (the pool is a stand-in that pickles arguments and results)'
ASSUMPTIONS = ['ideal signatures and hashes; AES key streams of concrete identifiers are the real ones']
