"""P32 Generated test DEPs are what the specification says."""
import datetime, gettext, json
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization
from librksv import algorithms, run_test, receipt, depparser, key_store, verify, verification_state
from . import common as c, dep, fixdata, tool

VS = verification_state
tool.load('run_test')
tool.load('demo')
PEM = dict((n, c.PRIV[n].private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.TraditionalOpenSSL,
                                       serialization.NoEncryption()).decode('ascii')) for n in ('A', 'B'))
OPEN = [(fixdata.CERTS['LEAF'], PEM['A']), (fixdata.CERTS['LEAFB'], PEM['B'])]
CLOSED = [(fixdata.PUBS['A'], PEM['A']), (fixdata.PUBS['B'], PEM['B'])]
SETS = ('taxSetNormal', 'taxSetErmaessigt1', 'taxSetErmaessigt2', 'taxSetNull', 'taxSetBesonders')
TYPES = {'N': 'STANDARD_BELEG', 'T': 'TRAINING_BELEG', 'S': 'STORNO_BELEG'}
T0 = datetime.datetime(2017, 3, 1, 23, 59, 58)
STRUCT = 'receipts are grouped as specified'


class Item(object):
    """one receipt of a specification"""

    def __init__(self, rid, cents=(0, 0, 0, 0, 0), kind='N', dev=0, damaged=False, **extra):
        self.rid = rid
        self.cents = list(cents)
        self.kind = kind
        self.dev = dev
        self.damaged = damaged
        self.extra = extra


def spec(items, devices=1, typed=True, **extra):
    out = dict(simulationRunLabel='LABEL', cashBoxId='KASSE-1', companyID='U:ATU12345678', base64AesKey=c.b64(c.KEY),
               numberOfSignatureDevices=devices, cashBoxInstructionList=[])
    out.update(extra)
    for i in range(len(items)):
        x = items[i]
        d = dict(receiptIdentifier=x.rid, dateToUse=(T0 + datetime.timedelta(seconds=i)).strftime('%Y-%m-%dT%H:%M:%S'),
                 simplifiedReceipt=dict((SETS[k], x.cents[k] / 100) for k in range(5)), usedSignatureDevice=x.dev,
                 signatureDeviceDamaged=x.damaged)
        if x.kind != 'N' or typed:
            d['typeOfReceipt'] = TYPES[x.kind]
        d.update(x.extra)
        out['cashBoxInstructionList'].append(d)
    return out


def receipts(env, d, label=STRUCT):
    """[(compact text, fields)] of a DEP"""
    out = []
    for g in d['Belege-Gruppe']:
        for t in g['Belege-kompakt']:
            out.append(t)
    return out


def fields(env, jws):
    try:
        r, prefix = receipt.Receipt.fromJWSString(jws)
    except Exception:
        env.fail('generated receipts are well-formed')
        return None
    env.check(prefix == 'R1', 'generated receipts are well-formed')
    return r


def read(env, label, fn):
    try:
        return fn()
    except Exception:
        env.fail(label)
        return None


class Reg(object):
    """what a register of the specification has done so far"""

    def __init__(self, anchor=None):
        self.total = 0
        self.last = anchor
        self.start = None


def compare(env, x, i, jws, reg, size, over=None, serial=None):
    """receipt i of the specification against what was generated"""
    over = over or {}
    r = fields(env, jws)
    rid = over.get('receiptId', x.rid)
    cash = over.get('registerId', 'KASSE-1')
    env.check(r.receiptId == rid, 'the receipts of the specification, in order')
    env.check(r.registerId == cash, 'the register of the specification')
    env.check(r.dateTimeStr == over.get('dateTime', (T0 + datetime.timedelta(seconds=i)).strftime('%Y-%m-%dT%H:%M:%S')), 'the time of the receipt')
    got = [r.sumAStr, r.sumBStr, r.sumCStr, r.sumDStr, r.sumEStr]
    for k in range(5):
        n = 'sum' + 'ABCDE'[k]
        if n in over:
            env.check(got[k] == over[n], 'overrides appear in the receipt')
        else:
            env.check(c.cents(got[k]) == x.cents[k], 'the amounts of the receipt')
    if x.kind != 'T':
        reg.total = reg.total + sum(x.cents)
    if 'turnoverCounter' in over:
        reg.total = over['turnoverCounter']
    if 'encTurnoverCounter' in over:
        env.check(r.encTurnoverCounter == over['encTurnoverCounter'], 'overrides appear in the receipt')
    elif x.kind == 'T':
        env.check(r.encTurnoverCounter == c.TRA, 'training receipts are marked')
    elif x.kind == 'S':
        env.check(r.encTurnoverCounter == c.STO, 'cancellations are marked')
    else:
        env.check(r.encTurnoverCounter == c.enc_counter(c.KEY, cash, rid, reg.total, size), 'the counter is in the receipt')
    env.check(r.previousChain == over.get('previousChain', c.chain_value(reg.last if reg.last is not None else cash)),
              'the receipt is chained to its predecessor')
    if serial is not None:
        env.check(r.certSerial == over.get('certSerial', serial), 'the signature device of the receipt')
    env.check(jws.endswith('.' + c.FAILED_SIG) == x.damaged, 'damaged devices do not sign')
    reg.last = jws
    if reg.start is None:
        reg.start = jws
    return r


def amounts(env, name, wide=False):
    v = [0] * 5
    k = env.choose(name + 'where', [0, 1, 2, 3, 4] if wide else [1])
    v[k] = env.int(name, -1999 if wide else -40, 1999 if wide else 40)
    if wide and env.choose(name + 'more', [False, True]):
        v[(k + 2) % 5] = -5
    return v


def generate(env, s, mat, closed, size=None):
    """(DEPs, key store as JSON data), or (None, None) after a failure"""
    try:
        deps, ks = run_test.runTest(s, mat[0:s['numberOfSignatureDevices']], closed, size)
        deps = json.loads(json.dumps(deps))
        ks = json.loads(json.dumps(ks))
    except Exception:
        env.fail('a specification can be carried out')
        return None, None
    return deps, ks


def verifies(env, d, ks, state=None, index=None):
    """the cluster state after the DEP"""
    try:
        store = key_store.KeyStore.readStoreFromJson(ks)
        return verify.verifyDEP(d, store, c.KEY, state, index, VS.UsedReceiptIdsUnique)
    except Exception:
        env.fail('valid specifications give valid DEPs')
        return None


def items(env, n, wide):
    """a start receipt and n more that obey the rules"""
    out = [Item('r0')]
    broken = False
    for i in range(n):
        what = env.choose('what%d' % i, ['sale', 'zero', 'training', 'cancel', 'out', 'outtraining'])
        damaged = what.startswith('out')
        kind = dict(sale='N', zero='N', training='T', cancel='S', out='N', outtraining='T')[what]
        if broken and not damaged:
            out.append(Item('z%d' % i))
        broken = damaged
        out.append(Item('r%d' % (i + 1), [0] * 5 if what == 'zero' else amounts(env, 'a%d' % i, wide), kind, damaged=damaged))
    if broken:
        out.append(Item('z'))
    return out


def simple(env):
    T = env.thorough
    n = env.choose('n', [1, 2, 3] if T else [1, 2])
    its = items(env, n, n == 1)
    form = env.choose('form', ['open', 'untyped', 'decimal', 'public', 'closed'] if n == 1 or T else ['open', 'closed'])
    closed = form == 'closed'
    extra = {}
    size = 8
    arg = None
    s = env.choose('size', ['default', 'spec', 'argument'] if n == 1 and form in ('open', 'closed') else ['default'])
    if s == 'spec':
        size = extra['turnoverCounterSize'] = env.choose('tc', [5, 16])
    elif s == 'argument':
        size = arg = 6
        extra['turnoverCounterSize'] = 9
    serial = '2f5a81'
    if closed:
        serial = 'U:ATU12345678-K0'
    elif form == 'decimal':
        extra['decimalSerial'] = True
        serial = str(0x2f5a81)
    if form == 'public':
        extra['includePublicKey'] = True
    deps, ks = generate(env, spec(its, typed=form != 'untyped', **extra), CLOSED if closed else OPEN, closed, arg)
    env.check(len(deps) == 1, 'one DEP if no other is begun')
    rs = receipts(env, deps[0])
    env.check(len(rs) == len(its), 'the receipts of the specification, in order')
    env.check(len(deps[0]['Belege-Gruppe']) == 1, STRUCT)
    reg = Reg()
    for i in range(len(its)):
        compare(env, its[i], i, rs[i], reg, size, serial=serial)
    st = verifies(env, deps[0], ks)
    env.check(st.cashRegisters[0].lastTurnoverCounter == reg.total, 'the DEP has the turnover of the specification')
    env.check(ks['base64AESKey'] == c.b64(c.KEY), 'the key store has the AES key')
    ids = sorted(ks['certificateOrPublicKeyMap'])
    env.check(ids == ['U:ATU12345678-K0'] if closed else ids == (['2f5a81', 'U:ATU12345678-K0'] if 'includePublicKey' in extra else ['2f5a81']),
              'the key store has the keys of the devices')


def public(text):
    der = c.base64.b64decode(text)
    k = x509.load_der_x509_certificate(der, default_backend()).public_key()
    return k.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)


def der(pub):
    return pub.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)


def devices(env):
    """two signature devices and groups"""
    T = env.thorough
    n = 3 if T else 2
    closed = env.choose('closed', [False, True])
    its = [Item('r0', dev=env.choose('dev', [0, 1]))]
    for i in range(n):
        its.append(Item('r%d' % (i + 1), amounts(env, 'a%d' % i), dev=env.choose('dev%d' % i, [0, 1])))
    groups = env.choose('groups', [True, False])
    extra = {}
    chain = [0, 0]
    if groups:
        extra['multipleGroups'] = True
        if not closed:
            chain = env.choose('chain', [[0, 0], [1, 0], [0, 2]])
            if chain != [0, 0]:
                extra['certChainLength'] = chain
    shown = not closed and env.choose('public', [False, True])
    if shown:
        extra['includePublicKey'] = True
    deps, ks = generate(env, spec(its, 2, **extra), CLOSED if closed else OPEN, closed)
    env.check(len(deps) == 1, 'one DEP if no other is begun')
    rs = receipts(env, deps[0])
    env.check(len(rs) == len(its), 'the receipts of the specification, in order')
    reg = Reg()
    for i in range(len(its)):
        if closed:
            serial = 'U:ATU12345678-K%d' % its[i].dev
        else:
            serial = ['2f5a81', FIXSERIAL][its[i].dev] if chain[its[i].dev] == 0 else None
        compare(env, its[i], i, rs[i], reg, 8, serial=serial)
    if shown:
        store = read(env, 'the key store has the keys of the devices', lambda: key_store.KeyStore.readStoreFromJson(ks))
        for i in range(len(its)):
            k = store.getKey('U:ATU12345678-K%d' % its[i].dev)
            env.check(algorithms.ALGORITHMS['R1'].verify(rs[i], k), 'the key store has the keys of the devices')
    runs = []
    for x in its:
        if groups and (not runs or runs[-1][0] != x.dev):
            runs.append([x.dev, 0])
        elif not runs:
            runs.append([None, 0])
        runs[-1][1] += 1
    gs = deps[0]['Belege-Gruppe']
    env.check(len(gs) == len(runs), STRUCT)
    for i in range(len(runs)):
        dev, cnt = runs[i]
        env.check(len(gs[i]['Belege-kompakt']) == cnt, STRUCT)
        if not groups:
            env.check(gs[i]['Signaturzertifikat'] == '' and len(gs[i]['Zertifizierungsstellen']) == 0, 'certificates only with groups')
            continue
        env.check(len(gs[i]['Zertifizierungsstellen']) == chain[dev], 'the certificate chain has the length of the specification')
        if chain[dev] == 0:
            k = read(env, 'groups have the certificate of the device', lambda: public(gs[i]['Signaturzertifikat']))
            env.check(k == der(c.PUB['AB'[dev]]), 'groups have the certificate of the device')
        else:
            k = read(env, 'groups have the certificate of the device', lambda: public(gs[i]['Zertifizierungsstellen'][-1]))
            env.check(k == der(c.PUB['AB'[dev]]), 'chains end in the certificate of the device')
    st = verifies(env, deps[0], ks)
    env.check(st.cashRegisters[0].lastTurnoverCounter == reg.total, 'the DEP has the turnover of the specification')


FIXSERIAL = '%x' % c.CERT['LEAFB'].serial_number
PLANS = [('N', 'P'), ('C', 'N'), ('C', 'P'), ('P', 'N'), ('P', 'P')]
PLANS3 = [(a, b, d) for a in 'NPC' for b in 'NPC' for d in 'NPC'] + [('C', 'R0', 'N'), ('C', 'R0', 'R1'), ('C', 'N', 'R0'), ('C', 'P', 'R0'),
          ('C', 'R0', 'P'), ('C', 'C', 'R1'), ('C', 'C', 'R0'), ('N', 'C', 'R0'), ('P', 'C', 'R0'), ('C', 'R1', 'R0')]


def depcase(env, plans):
    """several DEPs: parts of one register (P), new registers of a cluster (C),
    other registers continued (R0, R1)"""
    plan = env.choose('plan', plans)
    groups = env.choose('groups', [False, True])
    note = env.choose('note', [False, True])
    its = [Item('r0')]
    regs = [Reg()]
    cur = [0]
    where = [0]                             # DEP of each receipt
    info = [dict()]                         # extras of each DEP
    last = {0: 0}                           # newest DEP of each register
    first = {0: 0}
    depreg = [0]
    for i in range(len(plan)):
        p = plan[i]
        extra = {}
        x = Item('r%d' % (i + 1))
        if p == 'C':
            extra['beginNewDEP'] = 'NEW_CLUSTER_DEP'
        elif p != 'N':
            extra['beginNewDEP'] = 'NEW_PARTIAL_DEP'
        if p[0] == 'R':
            extra['continueRegister'] = int(p[1])
        if p != 'C':
            x.cents = amounts(env, 'a%d' % i)
        x.extra = extra
        r = cur[-1]
        d = where[-1]
        if p == 'C':
            r = len(regs)
            regs.append(Reg())
        elif p[0] == 'R':
            r = int(p[1])
        if p != 'N':
            d += 1
            info.append({'Vorheriges-DEP': first[r - 1] if p == 'C' else last[r]})
            if p != 'C':
                info[-1]['Fortgesetztes-DEP'] = True
            depreg.append(r)
            first.setdefault(r, d)
            last[r] = d
        its.append(x)
        cur.append(r)
        where.append(d)
    if note:
        its[-1].extra['annotateTurnoverCounter'] = 12.34
        info[-1]['Umsatz-gesamt'] = 12.34
    deps, ks = generate(env, spec(its, closedSystem=True, **({'multipleGroups': True} if groups else {})), CLOSED, True)
    env.check(len(deps) == len(info), 'DEPs begin where the specification says')
    rs = []
    for d in range(len(deps)):
        for t in receipts(env, deps[d]):
            rs.append((d, t))
    env.check(len(rs) == len(its), 'the receipts of the specification, in order')
    for i in range(len(its)):
        d, t = rs[i]
        env.check(d == where[i], 'DEPs begin where the specification says')
        reg = regs[cur[i]]
        if reg.start is None and cur[i] > 0:
            reg.last = regs[cur[i] - 1].start
        compare(env, its[i], i, t, reg, 8)
    for d in range(len(deps)):
        for k in ('Vorheriges-DEP', 'Fortgesetztes-DEP', 'Umsatz-gesamt'):
            env.check(deps[d].get(k) == info[d].get(k), 'DEPs say what they continue')
    st = None
    for d in range(len(deps)):
        st = verifies(env, deps[d], ks, st, depreg[d] if st is not None else None)
    env.check(len(st.cashRegisters) == len(regs), 'the DEP has the turnover of the specification')
    for a, b in zip(st.cashRegisters, regs):
        env.check(a.lastTurnoverCounter == b.total, 'the DEP has the turnover of the specification')
        env.check(a.lastReceiptJWS == b.last, 'the DEP has the turnover of the specification')


def deps(env):
    depcase(env, PLANS3 if env.thorough else PLANS + [x for x in PLANS3 if 'R' in x[1][0] + x[2][0]])


def override(env):
    """overrides change the named element of one receipt only"""
    closed = env.choose('closed', [False, True])
    make = dict(
        receiptId=lambda: 'X' + env.str('t', 1, 'ab1'), registerId=lambda: 'Y' + env.str('t', 1, 'ab1'),
        dateTime=lambda: '2016-01-01T00:00:0' + env.str('t', 1, c.DIG), sumA=lambda: '1' + env.str('t', 1, c.DIG) + ',00',
        sumE=lambda: '-1' + env.str('t', 1, c.DIG) + ',00',
        certSerial=lambda: 'U:ATU0000000' + env.str('t', 1, c.DIG) + '-K1' if closed else 'ab' + env.str('t', 1, '12f'),
        previousChain=lambda: 'AAAAAAAAAA' + env.str('t', 1, 'AQgw') + '=', encTurnoverCounter=lambda: 'AAAA' + env.str('t', 1, 'ABC') + 'AA=',
        turnoverCounter=lambda: env.int('tc', -(1 << 36), 1 << 36))
    name = env.choose('what', sorted(make))
    where = env.choose('where', [1, 2])
    v = make[name]()
    its = [Item('r0'), Item('r1', amounts(env, 'a', env.thorough), env.choose('kind', ['N', 'T', 'S'])), Item('r2', [0, 0, 7, 0, 0])]
    its[where].extra['override'] = {name: v}
    deps, ks = generate(env, spec(its), CLOSED if closed else OPEN, closed)
    rs = receipts(env, deps[0])
    env.check(len(rs) == 3, 'the receipts of the specification, in order')
    reg = Reg()
    for i in range(3):
        compare(env, its[i], i, rs[i], reg, 8, {name: v} if i == where else None, 'U:ATU12345678-K0' if closed else '2f5a81')


def program(env):
    """the command line tool"""
    closed = env.choose('closed', [False, True])
    split = env.choose('split', [False, True])
    its = [Item('r0'), Item('r1', env.choose('a', [[0, -1234, 0, 0, 0], [29, 0, 0, 0, 100000]])), Item('r2', [5, 0, 0, 0, 0])]
    if split:
        its[2].extra['beginNewDEP'] = 'NEW_PARTIAL_DEP'
    n = env.choose('devices', [1, 2])
    if n == 2:
        its[1].dev = 1
    label = env.choose('label', ['LABEL', 'old'])
    s = spec(its, n, simulationRunLabel=label)
    mat = CLOSED if closed else OPEN
    files = {'spec.json': json.dumps(s), 'old/other': 'x'}
    argv = ['closed' if closed else 'open', 'spec.json']
    for i in range(n):
        files['k%d' % i] = mat[i][1]
        files['p%d' % i] = mat[i][0]
        argv += ['k%d' % i, 'p%d' % i]
    bad = env.choose('bad', ['none', 'size', 'few', 'mode', 'badsize'])
    size = 8
    if bad == 'size':
        argv.append('6')
        size = 6
    elif bad == 'few':
        argv = argv[:-2] if n == 2 else argv + ['k0', 'p0']
    elif bad == 'mode':
        argv[0] = 'half'
    elif bad == 'badsize':
        argv.append(env.choose('badsize', ['4', '17']))
    r = tool.run('run_test', argv, files, modules={'gettext': Gettext()})
    if bad in ('few', 'mode', 'badsize'):
        env.check(sorted(x for x in r.files if x.endswith('.json')) == ['spec.json'], 'nothing is generated for wrong arguments')
        return
    env.check(r.status == 0, 'a specification can be carried out')
    for f in files:
        env.check(r.files[f] == files[f], 'other files are left alone')
    names = ['dep-export0.json', 'dep-export1.json'] if split else ['dep-export.json']
    env.check(sorted(set(r.files) - set(files)) == sorted(label + '/' + x for x in names + ['cryptographicMaterialContainer.json']),
              'the DEPs and the key store are written to the directory of the test case')

    def load():
        return json.loads(r.files[label + '/cryptographicMaterialContainer.json']), [json.loads(r.files[label + '/' + x]) for x in names]
    ks, deps = read(env, 'the files are JSON', load)
    reg = Reg()
    rs = []
    for d in deps:
        rs += receipts(env, d)
    env.check(len(rs) == 3, 'the receipts of the specification, in order')
    st = None
    for i in range(3):
        compare(env, its[i], i, rs[i], reg, size)
    for d in deps:
        st = verifies(env, d, ks, st, None if st is None else 0)
    env.check(st.cashRegisters[0].lastTurnoverCounter == reg.total, 'the DEP has the turnover of the specification')


class Gettext(object):
    """the gettext module of Python 3.10 and earlier, where install() takes a codeset"""

    def install(self, domain, localedir=None, codeset=None, names=None):
        gettext.install(domain, localedir)

    def __getattr__(self, n):
        return getattr(gettext, n)


def start(env):
    """the program starts on this Python"""
    r = tool.run('run_test', env.choose('argv', [['open'], ['half', 'spec.json', 'k0', 'p0']]), {'spec.json': '{}'})
    if isinstance(r.exc, TypeError) and str(r.exc).find('install()') >= 0:
        env.fail('run_test.py installs its translations')
    env.check(r.exc is None and r.status == 0, 'run_test.py starts')


class Dice(object):
    """the random module: numbers of the harness"""

    def __init__(self, env):
        self.env = env
        self.n = 0
        self.drawn = []
        self.fractions = env.choose('fractions', [0, 1, -1])

    def uniform(self, a, b):
        self.n += 1
        if b == 1:
            r = self.env.choose('coin%d' % self.n, [0.25, 0.75])
            self.drawn.append(r > 0.5)
            return r
        x = 0
        if self.n in (1, 9):
            x = self.env.int('amount%d' % self.n, -99, 99)
        elif self.n in (5, 10):
            x = -100000
        elif self.n in (2, 3, 4, 11, 12, 13) and self.fractions:
            # less than half a cent each, more than that together
            self.drawn.append(0)
            return self.fractions * (0.004 - self.n * 0.0001)
        self.drawn.append(x)
        return x / 100

    def __getattr__(self, n):
        raise tool.Unsupported('random.' + n)


class Now(datetime.datetime):
    calls = 0

    @classmethod
    def now(cls, tz=None):
        Now.calls += 1
        return T0 + datetime.timedelta(seconds=Now.calls, microseconds=999999)


class Clock(object):
    """the datetime module with a clock of the harness"""
    datetime = Now

    def __getattr__(self, n):
        return getattr(datetime, n)


def demo(env):
    """demo.py prints a DEP of a new register"""
    form = env.choose('form', ['cert', 'pub'])
    n = env.choose('n', [0, 1, 2, 3] if env.thorough else [0, 1, 2])
    files = {'priv': PEM['A'], 'cert': fixdata.CERTS['LEAF'], 'pub': fixdata.PUBS['A'], 'aes': c.b64(c.KEY) + '\n'}
    kid = 'U:ATU1-' + env.choose('kid', ['1', 'ab']) if form == 'pub' else None
    argv = ['priv', 'cert', 'aes', str(n)] if form == 'cert' else ['priv', 'pub', kid, 'aes', str(n)]
    few = env.choose('few', [False, True])
    if few:
        argv = argv[:1]
    dice = Dice(env)
    Now.calls = 0
    r = tool.run('demo', argv, files, modules={'random': dice, 'datetime': Clock()})
    env.check(r.exc is None and r.status == 0, 'the tool works')
    if n == 0 or few:
        env.check(r.out.find('"Belege-Gruppe"') < 0, 'nothing is generated for wrong arguments')
        return
    d = read(env, 'the DEP is JSON', lambda: json.loads(r.out))
    rs = receipts(env, d)
    env.check(len(rs) == n, 'there are as many receipts as asked for')
    total = 0
    for i in range(1, n):
        a = dice.drawn[(i - 1) * 7:i * 7]
        if not a[5]:
            total = total + sum(a[0:5])
    ks = key_store.KeyStore()
    if form == 'cert':
        ks.putPEMCert(fixdata.CERTS['LEAF'])
    else:
        ks.putKey(kid, c.PUB['A'], None)
    try:
        st = verify.verifyDEP(d, ks, c.KEY, None, None, VS.UsedReceiptIdsUnique)
    except Exception:
        env.fail('the generated DEP verifies')
        return
    st = st.cashRegisters[0]
    env.check(st.lastTurnoverCounter == total, 'the generated DEP has the turnover of its receipts')


CASES = [dict(name='simple', fn=simple, seconds=dict(quick=110, thorough=300)), dict(name='devices', fn=devices), dict(name='deps', fn=deps), dict(name='override', fn=override),
         dict(name='program', fn=program), dict(name='start', fn=start), dict(name='demo', fn=demo)]
BOUNDS = ('specifications of a start receipt and 1-2 (3) receipts of any kind with or without a working device, amounts of up to +-19.99 '
          '(+-0.40 in sequences); one or two devices, chains of up to two intermediate certificates; up to three further DEPs, cluster '
          'registers and continued registers; every override of a single element; all counter sizes 5, 6, 8 and 16; demo.py with up to 1 (2) receipts behind the first one')
OUTSIDE = ('amounts with fractions of a cent; elements made to provoke errors (certChainFailure, certChainSerialCollision, omit...); overrides '
           'of header, signature and JWS; totals that do not fit the counter size')
ASSUMPTIONS = ['ideal signatures and hashes', 'run_test.py runs on a Python whose gettext.install() takes a codeset (see the known finding P32-start)', 'floats of at most 15 significant digits are treated as exact decimals']
