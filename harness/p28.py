"""P28 The state tool changes what a command names and nothing else."""
import json
from librksv import verification_state, receipt, url_receipt_helpers as UH
from . import common as c, dep, p29, tool
from .p04 import text
from .p20 import _Requests

S = c.Spec
VS = verification_state
tool.load('verification_state')
F = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt', 'chainNextTo')
TOUCH = 'nothing but what the command names is changed'


def register(env, n, whole=True):
    return {'startReceiptJWS': 's' + env.str('start' + n, 1, 'ab"\xe4') if whole or env.choose('started' + n, [1, 0]) else None,
            'lastReceiptJWS': 'l' + env.str('last' + n, 1, 'ab"\\'), 'lastTurnoverCounter': env.int('total' + n, -(1 << 40), 1 << 40) if n[-1] == '0' else -(1 << 100) - 7,
            'needRestoreReceipt': n[-1] == '1', 'chainNextTo': 'AAA' + env.str('next' + n, 1, 'ab=') if n[-1] == '0' else None}


def state(env, n, name=''):
    return {'cashRegisters': [register(env, name + str(i), i < n - 1) for i in range(n)],
            'usedReceiptIds': {'backendType': 'USED_RECEIPT_IDS_UNIQUE', 'backendData': ['id1', 'i2' + env.str('id' + name, 1, 'xyz')]}}


def copy(d):
    return {'cashRegisters': [dict(r) for r in d['cashRegisters']],
            'usedReceiptIds': {'backendType': d['usedReceiptIds']['backendType'],
                               'backendData': list(d['usedReceiptIds']['backendData'])}}


def saved(env, r, label='the state file stays usable'):
    try:
        return json.loads(r.files['st.json'])
    except Exception:
        env.fail(label)


def within(i, x):
    ok = False
    for j in x:
        ok = ok | (i == j)
    return ok


def judge(env, r, want, label=TOUCH, ids=True):
    got = saved(env, r)
    env.check(len(got['cashRegisters']) == len(want['cashRegisters']), label)
    for a, b in zip(got['cashRegisters'], want['cashRegisters']):
        for f in F:
            env.check(a[f] == b[f], label)
    if ids:
        a, b = got['usedReceiptIds'], want['usedReceiptIds']
        env.check(a['backendType'] == b['backendType'], label)
        x = a['backendData']
        # a set: order and repetition are free
        for i in b['backendData']:
            env.check(within(i, x), label)
        for i in x:
            env.check(within(i, b['backendData']), label)


def refused(env, r, files, label='a command that cannot be carried out leaves the file alone'):
    env.check(r.status != 0 or r.exc is None, label)
    for n in files:
        env.check(r.files[n] == files[n], label)


def shown(x, out):
    ok = False
    for line in out.split('\n'):
        ok = ok | line.endswith(x)
    return ok


EMPTY = {'startReceiptJWS': None, 'lastReceiptJWS': None, 'lastTurnoverCounter': 0, 'needRestoreReceipt': False, 'chainNextTo': None}
SIMPLE = ['addCashRegister', 'resetCashRegister', 'deleteCashRegister', 'setLastReceiptJWS', 'setLastTurnoverCounter', 'setChainNextTo',
          'toggleNeedRestoreReceipt', 'setStartReceiptJWS', 'show', 'create']


def simple(env):
    n = env.choose('n', [1, 2, 3])
    st = state(env, n)
    if n == 3 and env.choose('equal', [0, 1]):
        st['cashRegisters'][2] = dict(st['cashRegisters'][0])
    cmd = env.choose('cmd', SIMPLE)
    files = {'st.json': json.dumps(st)}
    want = copy(st)
    args = []
    bad = False
    ids = True
    if cmd not in ('addCashRegister', 'show', 'create'):
        i = env.choose('index', [0, 1, 2, 3])
        args = [str(i)]
        bad = i >= n
        if not bad:
            reg = want['cashRegisters'][i]
            if cmd == 'resetCashRegister':
                want['cashRegisters'][i] = dict(EMPTY)
                ids = False
            elif cmd == 'deleteCashRegister':
                del want['cashRegisters'][i]
            elif cmd == 'toggleNeedRestoreReceipt':
                reg['needRestoreReceipt'] = not reg['needRestoreReceipt']
        if cmd == 'setLastTurnoverCounter':
            v = env.choose('v', ['0', '-', '7', 'big', '9007199254740993', '-170141183460469231731687303715884105727'])
            if v == '-':
                v = v + env.chars('digits', ['123', '0123456789', '0123456789'])
            elif v == '7':
                v = env.str('digits', 12, '0123456789')
            elif v == 'big':
                # counters have up to 16 bytes
                v = '900719925474' + env.str('digits', 4, '0123456789')
            args.append(v)
            if not bad:
                reg['lastTurnoverCounter'] = int(v)
        elif cmd.startswith('set'):
            v = env.choose('v', ['None', 'x'])
            v = v if v == 'None' else env.str('value', 3, 'abN.=')
            args.append(v)
            if not bad:
                reg[{'setLastReceiptJWS': 'lastReceiptJWS', 'setChainNextTo': 'chainNextTo',
                     'setStartReceiptJWS': 'startReceiptJWS'}[cmd]] = None if v == 'None' else v
    elif cmd == 'addCashRegister':
        bad = st['cashRegisters'][n - 1]['startReceiptJWS'] is None
        want['cashRegisters'].append(dict(EMPTY))
    elif cmd == 'create':
        want = {'cashRegisters': [], 'usedReceiptIds': {'backendType': 'USED_RECEIPT_IDS_UNIQUE', 'backendData': []}}
    r = tool.run('verification_state', ['st.json', cmd] + args, files)
    if bad:
        refused(env, r, files)
        return
    env.check(r.status == 0, 'a command that can be carried out is')
    judge(env, r, want, ids=ids)
    if cmd == 'show':
        for g in st['cashRegisters']:
            for f in F[:3]:
                env.check(shown(str(g[f]), r.out), 'the state is shown')


def lists(env):
    """identifiers from a file, registers from another state"""
    st = state(env, 2)
    files = {'st.json': json.dumps(st)}
    want = copy(st)
    if env.choose('cmd', ['ids', 'copy']) == 'ids':
        ids = ['r' + env.choose('in%d' % k, ['', ' ']) + 'r' + env.str('i%d' % k, env.choose('len%d' % k, [0, 1]), 'ab;"') for k in range(env.choose('count', [0, 1, 2, 3]))]
        sep = env.choose('sep', ['\n', '\r\n'])
        t = ''
        for k in range(len(ids)):
            t = t + ids[k] + (sep if k < len(ids) - 1 or env.choose('last', [1, 0]) else '')
        files['ids.txt'] = t
        want['usedReceiptIds']['backendData'] = ids
        r = tool.run('verification_state', ['st.json', 'readUsedReceiptIds', 'ids.txt'], files)
    else:
        src = state(env, 2, 'x')
        files['src.json'] = json.dumps(src)
        a, b = env.choose('to', [0, 1, 2]), env.choose('from', [0, 1, 2])
        r = tool.run('verification_state', ['st.json', 'copyCashRegister', str(a), 'src.json', str(b)], files)
        if a == 2 or b == 2:
            refused(env, r, files)
            return
        want['cashRegisters'][a] = src['cashRegisters'][b]
        env.check(r.files['src.json'] == files['src.json'], TOUCH)
    env.check(r.status == 0, 'a command that can be carried out is')
    judge(env, r, want)


def update(env):
    """the target register is updated as if the DEP had been verified"""
    n = env.choose('n', [1, 2, 3])
    key = env.choose('key', [c.KEY, None])
    p = S('p', signed=env.choose('psigned', ['A', None]))
    pj, _ = dep.build([p])
    fresh = env.choose('fresh', [0, 1])
    st = state(env, 2)
    at = env.choose('at', [0, 1])
    st['cashRegisters'][0]['chainNextTo'] = st['cashRegisters'][1]['chainNextTo'] = None
    total = 0 if fresh else env.int('total', -(1 << 38), 1 << 38)
    m = dep.Model(key) if fresh else dep.Model(key, (p, pj[0]), total=total)
    m.startjws = None if fresh else 'x.y.z'
    reg = st['cashRegisters'][at]
    reg.update(startReceiptJWS=m.startjws, lastReceiptJWS=m.lastjws, lastTurnoverCounter=total, needRestoreReceipt=False)
    specs = []
    for i in range(n):
        sums = list(c.ZERO)
        if i:
            sums[i] = env.chars('a%d' % i, ['-', '01', ',', '0', '05']) if i == 1 or env.thorough and env.choose('neg%d' % i, [1, 0]) else '0,02'
        specs.append(S('r%d' % i, sums, env.choose('k%d' % i, ['N', 'S', 'T'] if i else ['N']),
                       env.choose('s%d' % i, ['A', None]) if i == 1 or env.thorough else 'A', ts=c.TS % i))
    jws, _ = dep.build(specs, m.lastjws, total)
    for s, j in zip(specs, jws):
        if m.issues(s, j):
            return
    cut = env.choose('groups', [n, 1])
    how = env.choose('how', ['plain', 'certs', 'after', 'chunks'] if at == 0 or env.thorough else ['after'])
    chain = ('LEAF', ['INT', 'ROOT']) if how != 'plain' else (None, [])
    d = p29.dep([(chain[0], chain[1], jws[:cut])] + ([('LEAFB' if chain[1] else None, [], jws[cut:])] if cut < n else []), 2 if how == 'after' else 0)
    files = {'st.json': json.dumps(st), 'dep.json': json.dumps(d)}
    args = ['st.json', 'updateCashRegister', str(at), 'dep.json']
    if key is not None:
        files['key.txt'] = c.b64(key) + '\n'
        args.append('key.txt')
    r = p29.chunked('verification_state', args, files, chunks=1 if how == 'chunks' else None)
    env.check(r.status == 0, 'a command that can be carried out is')
    want = copy(st)
    want['cashRegisters'][at] = {'startReceiptJWS': m.startjws, 'lastReceiptJWS': m.lastjws,
                                 'lastTurnoverCounter': m.total if key is not None else total,
                                 'needRestoreReceipt': m.restore, 'chainNextTo': None}
    judge(env, r, want, ids=False, label='the register is updated as if the DEP had been verified and others are untouched')
    for i in st['usedReceiptIds']['backendData']:
        env.check(within(i, saved(env, r)['usedReceiptIds']['backendData']), TOUCH)


def arbitrary(env):
    """states to go on from a receipt in any format"""
    fmt = env.choose('fmt', ['jws', 'qr', 'ocr', 'csv', 'url', 'xyz'])
    kind = env.choose('kind', ['N', 'T', 'S'])
    total = env.int('total', -(1 << 38), 1 << 38)
    key = env.choose('key', [None, c.KEY])
    start = env.choose('cmd', ['fromArbitraryReceipt', 'fromArbitraryStartReceipt'])
    s = S('r1', ('0,00', env.chars('a', ['-', '0', ',', '12', '05']), '1,00', '0,00', '0,00'), kind, env.choose('signed', ['A', None]))
    s.chain = c.b64(env.bytes('chain', 8))
    jws, _ = dep.build([s], None, total)
    shown = text(fmt, jws[0]) if fmt != 'url' and fmt != 'xyz' else 'http://x.y/z'
    old = env.choose('old', [None, 'junk'])
    files = {} if old is None else {'st.json': old}
    args = ['st.json', start, fmt, shown + env.choose('end', ['', '\n'])]
    if key is not None and start == 'fromArbitraryReceipt':
        files['key.txt'] = c.b64(key)
        args.append('key.txt')
    urls = []
    r = tool.run('verification_state', args, files, patch=[(UH, 'requests', _Requests(urls, text('qr', jws[0]), False))])
    if fmt == 'xyz':
        refused(env, r, files)
        env.check(('st.json' in r.files) == (old is not None), 'a command that cannot be carried out leaves the file alone')
        return
    env.check(r.status == 0, 'receipts of every format are read')
    d = saved(env, r)
    env.check(len(d['cashRegisters']) == 1, 'one register is created')
    g = d['cashRegisters'][0]
    env.check(g['chainNextTo'] == s.chain, 'the DEP has to begin with the receipt')
    env.check(g['startReceiptJWS'] is None and g['needRestoreReceipt'] is False, 'nothing is assumed of earlier receipts')
    env.check((g['lastReceiptJWS'] is None) == (start == 'fromArbitraryStartReceipt'), 'a start receipt has no predecessor')
    if key is not None and kind == 'N' and start == 'fromArbitraryReceipt':
        env.check(g['lastTurnoverCounter'] == total, 'the total before the receipt')
    else:
        env.check(g['lastTurnoverCounter'] == 0, 'the total before the receipt')


CASES = [dict(name='simple', fn=simple), dict(name='lists', fn=lists), dict(name='update', fn=update, seconds=dict(quick=130, thorough=450)), dict(name='arbitrary', fn=arbitrary)]
BOUNDS = ('states of one to three registers with symbolic contents, every command with indices 0-3, values of three characters and numbers '
          'of up to sixteen digits; lists of up to three identifiers; DEPs of 1-3 receipts of every kind in one or two groups, with and without certificates, before and after the receipts, read whole or one receipt at a time; receipts of '
          'every format and kind with symbolic amount, total and chaining value')
OUTSIDE = ('negative indices; identifiers after resetCashRegister and updateCashRegister (the documentation says nothing about them); '
           'crashes while the file is being written')
ASSUMPTIONS = ['ideal signatures and hashes; AES key streams of concrete identifiers are the real ones']
