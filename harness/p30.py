"""P30 The key store tool changes what a command names and nothing else."""
import base64, json
from librksv import key_store, utils
from . import common as c, tool
from .p19 import Model, SERIAL, OWNER, pem_cert, pem_key, same

KS = key_store
tool.load('key_store')
NONE = 'No symmetric key present.'


def start(env):
    """(store text, model, AES key or None)"""
    m = Model()
    ks = KS.KeyStore()
    for i, name in env.choose('entries', [[], [('2f5a81', 'LEAF')], [('2f5a81', 'LEAF'), ('1234', 'LEAFB'), ('U1', 'C')]]):
        if name in SERIAL:
            ks.putPEMCert(pem_cert(name))
            m.put(i, OWNER[name], name)
        else:
            ks.putPEMKey(i, pem_key(name))
            m.put(i, name, None)
    k = env.choose('aes', [None, 'k'])
    if k is not None:
        k = c.KEY[:31] + env.bytes('k', 1)
    return json.dumps(ks.writeStoreToJson(None if k is None else c.b64(k))), m, k


def opened(env, t):
    try:
        d = json.loads(t)
        return KS.KeyStore.readStoreFromJson(d), utils.loadKeyFromJson(d), d
    except Exception:
        env.fail('the key store stays usable')


COMMANDS = ['list', 'add', 'addkey', 'del', 'showSymmetricKey', 'setSymmetricKey', 'delSymmetricKey', 'create', 'legacy', 'wrong']
ALTER = 'nothing but what the command names is changed'


def step(env, n, text, m, k, cmds):
    """one command; returns the new (text, key)"""
    cmd = env.choose('cmd' + n, cmds)
    files = {'ks.json': text, 'cert.pem': pem_cert('INT'), 'key.pem': pem_key('B'), 'junk.pem': 'junk'}
    args, stdin, ok = [], '', True
    what = cmd
    if cmd == 'add':
        f = env.choose('file' + n, ['cert.pem', 'junk.pem', 'none.pem', 'key.pem'])
        args = [f]
        ok = f == 'cert.pem'
        if ok:
            m.put('77', 'I', 'INT')
    elif cmd == 'addkey':
        what = 'add'
        f = env.choose('file' + n, ['key.pem', 'junk.pem', 'cert.pem'])
        i = env.choose('at' + n, ['2f5a81', 'U1', None])
        i = env.str('id' + n, 2, 'aU1') if i is None else i
        args = [f, i]
        ok = f == 'key.pem'
        if ok:
            m.put(i, 'B', None)
    elif cmd == 'del':
        i = env.choose('at' + n, ['2f5a81', 'U1', 'none', None])
        i = env.str('id' + n, 2, 'aU1') if i is None else i
        args = [i]
        m.delete(i)
    elif cmd == 'setSymmetricKey':
        how = env.choose('new' + n, ['key', 'empty', 'none', 'bad'])
        new = env.bytes('new' + n, env.choose('size' + n, [32, 16]))
        stdin = {'key': base64.b64encode(new).decode('ascii') + env.choose('end' + n, ['\n', '', '\r\n']), 'empty': '\n', 'none': '', 'bad': 'x$\n'}[how]
        ok = how != 'bad'
        if how == 'key':
            k = new
    elif cmd == 'delSymmetricKey':
        k = None
    elif cmd == 'create':
        m.entries, k = [], None
        if env.choose('fresh' + n, [0, 1]):
            del files['ks.json']
    elif cmd == 'legacy':
        what = 'toLegacyIni'
    elif cmd == 'wrong':
        what, args = env.choose('wrong' + n, [('list', ['x']), ('create', ['x']), ('add', []), ('del', []), ('del', ['a', 'b']), ('nothing', []),
                                              ('add', ['cert.pem', 'a', 'b']), ('setSymmetricKey', ['x'])])
    r = tool.run('key_store', ['ks.json', what] + args, files, stdin)
    for f in files:
        if f != 'ks.json':
            env.check(r.files[f] == files[f], 'other files are left alone')
    env.check(len(r.files) == 4, 'other files are left alone')
    env.check((r.status == 0) == ok, 'a command succeeds exactly if it can be carried out')
    if not ok or cmd in ('list', 'showSymmetricKey', 'legacy', 'wrong') or cmd == 'setSymmetricKey' and how in ('empty', 'none'):
        env.check(r.files['ks.json'] == text, 'the file is left alone if there is nothing to change')
    if cmd == 'list':
        lines = r.out.split('\n')
        env.check(len(lines) == len(m.entries) + 1, 'every identifier is listed once')
        for e in m.entries:
            ok = False
            for x in lines[:len(lines) - 1]:
                ok = ok | (x == e[0])
            env.check(ok, 'every identifier is listed once')
    elif cmd == 'showSymmetricKey':
        env.check(r.out.strip() == (NONE if k is None else base64.b64encode(k).decode('ascii')), 'the AES key is shown')
    elif cmd == 'legacy':
        # the old format keeps keys and certificates
        q = tool.run('key_store', ['new.json', 'fromLegacyIni'], {}, r.out)
        env.check(q.status == 0 and 'new.json' in q.files, 'the old format can be read again')
        ks, key, d = opened(env, q.files['new.json'])
        same(env, ks, m, ['2f5a81', 'U1', 'zz'], 'by way of the old format')
        env.check(key is None, 'no AES key appears')
    ks, key, d = opened(env, r.files['ks.json'])
    same(env, ks, m, ['2f5a81', 'U1', '77', '1234', 'zz'], ALTER)
    env.check((key is None) == (k is None), ALTER + ': AES key')
    if k is not None:
        env.check(key == k, ALTER + ': AES key')
    return r.files['ks.json'], k


def one(env):
    t, m, k = start(env)
    step(env, '', t, m, k, COMMANDS)


def two(env):
    t, m, k = start(env)
    cmds = [x for x in COMMANDS if x not in ('wrong', 'create', 'legacy')] if env.thorough else ['add', 'addkey', 'del', 'setSymmetricKey']
    t, k = step(env, '1', t, m, k, cmds)
    step(env, '2', t, m, k, [x for x in COMMANDS if x not in ('wrong', 'create', 'legacy')] if env.thorough else ['addkey', 'del', 'delSymmetricKey'])


CASES = [dict(name='one', fn=one), dict(name='two', fn=two)]
BOUNDS = ('stores with no, one and three entries with and without AES key (one symbolic byte), every command of the tool with good and bad '
          'arguments, and sequences of two commands; identifiers of two arbitrary characters; new AES keys with every content')
OUTSIDE = 'identifiers with characters that mean something in the old INI format; crashes while the file is being written'
ASSUMPTIONS = []
