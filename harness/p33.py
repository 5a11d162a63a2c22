"""P33 The graphical tool shows what verification says."""
import json
from librksv import key_store, receipt
from . import common as c, dep, fixdata, gui, tool
from .p04 import text as form

S = c.Spec
tool.load('rktool')
ALIVE = 'no error escapes'
VERDICT = 'a DEP is shown as valid exactly if it verifies'


def guard(env, fn, *args):
    try:
        return fn(*args)
    except Exception:
        env.fail(ALIVE)


def ask(env, opener, method, *args):
    """the dialog a button opens is answered"""
    n = len(gui.G.dialogs)
    guard(env, opener)
    env.check(len(gui.G.dialogs) == n + 1, 'a dialog opens')
    guard(env, getattr(gui.G.dialogs[n].shown(), method), *args)


def views(ns):
    return [d.shown() for d in gui.G.dialogs if isinstance(d.shown(), ns['ViewReceiptWidget'])]


def nobtn(f):
    return lambda: f(None)


def store(*names):
    return json.dumps(c.key_store(*names).writeStoreToJson(c.b64(c.KEY)))


def dep_text(groups):
    return json.dumps(dep.dep_dict([(cert, chain, jws) for jws, cert, chain in groups]))


def walk(node):
    return [(n.text, n) for n in node.nodes]


def values(view):
    """what a receipt window shows"""
    a = view.adapter
    out = []
    for k in a.sorted_keys:
        x = a.args_converter(k, a.data[k])
        out.append(x['item_value'])
    return out


def amount(t):
    """text of an amount as the window shows it -> what it should look like"""
    n = c.cents(t)
    return str(n / 100)


def check_view(env, view, s, jws, total=None):
    v = values(view)
    ctr = 'TRA' if s.kind == 'T' else 'STO' if s.kind == 'S' else s.ctr if total is None else str(total / 100)
    want = ['R1-' + s.zda, s.reg, s.rid, s.ts] + [amount(x) for x in s.sums] + [ctr, s.serial, s.chain]
    env.check(len(v) == 13, 'the window shows the whole receipt')
    for i in range(12):
        if i in (4, 5, 6, 7, 8):
            env.check(v[i] == want[i], 'the window shows the amounts')
        elif i == 9:
            env.check(v[i] == want[i], 'the window shows the turnover counter')
        else:
            env.check(v[i] == want[i], 'the window shows the contents')
    if s.signed is None:
        env.check(v[12] == 'Signature system broken', 'the window shows that there is no signature')
    else:
        env.check(v[12] == jws.split('.')[2], 'the window shows the signature')


def prepare(env, where):
    """specs of a DEP that may break any rule, with everything it says being symbolic somewhere"""
    e = env.choose('what', ['plain', 'chain', 'id', 'register', 'unsigned', 'counter', 'foreign', 'kinds'])
    a = S('r0', ctr=None)
    k = env.choose('column', [0, 4]) if e == 'plain' else 1
    sums = ['0,00'] * 5
    sums[k] = (env.choose('sign', ['', '-']) if e in ('plain', 'kinds') else '') + env.str('x', 1, '123456789') + ',' + env.str('y', 2, c.DIG)
    b = S('r1', sums=sums)
    d = S('r2')
    if e == 'chain':
        d.chain = 'AAAAAAAAAA' + env.str('chain', 1, 'AQgw') + '='
    elif e == 'id':
        d.rid = 'r' + env.str('id', 1, '0123')
    elif e == 'register':
        d.reg = 're' + env.str('reg', 1, 'fgh')
    elif e == 'unsigned':
        b.signed = None
        d.signed = env.choose('again', ['A', None])
    elif e == 'counter':
        b.ctr = env.choose('ctr', ['AAAAAAAAAAA=', 'AAAAAAAAAAw='])
    elif e == 'foreign':
        d.signed = 'B'
    elif e == 'kinds':
        b.kind = env.choose('kind', ['T', 'S'])
    return [a, b, d]


def verdict(env, w, ns, good, label=VERDICT):
    env.check((w.verify_button.text == 'Valid DEP') == good, label)
    if good:
        env.check(len(gui.errors(ns)) == 0, 'no error is shown for a valid DEP')
    else:
        env.check(len(gui.errors(ns)) == 1, 'an error is shown for any other DEP')
        env.check(w.verify_button.text == 'Verify', 'the tool can be used again')
    env.check(gui.G.lost == 0, ALIVE)


def whole(env):
    """a DEP is loaded and verified"""
    specs = prepare(env, 'dep')
    jws, _t = dep.build(specs)
    split = env.choose('groups', [[3], [1, 2], [1, 1, 1]] if not env.thorough else [[3], [1, 2], [2, 1], [1, 1, 1]])
    key = env.choose('key', ['right', 'none', 'short', 'bad'])
    ks = env.choose('store', ['ROOT', 'LEAF', 'FAKE'])
    m = dep.Model(key=c.KEY if key == 'right' else None)
    ok = ks != 'FAKE' and key in ('right', 'none')
    for s, j in zip(specs, jws):
        if ok and (s.signed == 'B' or m.issues(s, j)):
            ok = False
    groups = []
    i = 0
    for n in split:
        groups.append((jws[i:i + n], 'LEAF', ['INT', 'ROOT']))
        i += n
    texts = dict(right=c.b64(c.KEY) + '\n', none='', short=c.b64(b'short'), bad='%')

    def body(ns, path, read):
        kw = ns['KeyStoreWidget']()
        w = ns['VerifyDEPWidget']()
        ask(env, kw.importKeyStore, 'load', path, ['ks.json'])
        ask(env, w.loadDEP, 'load', path, ['dep.json'])
        gui.frame()
        env.check(w.verify_button.disabled == False, 'a DEP that was loaded can be verified')
        if key != 'none':
            ask(env, w.loadAES, 'load', path, ['key'])
        guard(env, w.verify)
        gui.settle()
        # an unusable key does no harm if no receipt tells its counter
        verdict(env, w, ns, ok)
        guard(env, show, env, ns, w, split, specs, jws, ok, key == 'right')
    gui.run({'ks.json': store(ks), 'dep.json': dep_text(groups), 'key': texts[key]}, body)


def show(env, ns, w, split, specs, jws, ok, key):
    """the receipts in the tree"""
    g = walk(w.treeView.root)
    env.check(len(g) == len(split), 'every group is shown')
    n = 0
    which = env.choose('which', [0, 1, 2])
    for i in range(len(split)):
        parts = walk(g[i][1])
        env.check([t for t, x in parts] == ['Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt'], 'every group is shown')
        certs = walk(parts[0][1]) + walk(parts[1][1])
        env.check([t for t, x in certs] == ['Serial: ' + key_store.numSerialToKeyId(c.CERT[k].serial_number) for k in ('LEAF', 'INT', 'ROOT')],
                  'every certificate is shown')
        if i == len(split) - 1:
            name = ('LEAF', 'INT', 'ROOT')[which]
            certs[which][1].press()
            got = gui.G.app.keyStore.getCert(key_store.numSerialToKeyId(c.CERT[name].serial_number))
            env.check(got is not None and got == c.CERT[name], 'the certificate that was chosen is added to the key store')
        recs = walk(parts[2][1])
        env.check(len(recs) == split[i], 'every receipt is shown')
        for t, x in recs:
            env.check(t == specs[n].rid, 'every receipt is shown')
            if n == which:
                x.press()
                gui.settle()
                env.check(len(views(ns)) == 1, 'a receipt can be shown')
                view = views(ns)[0]
                total = None
                if key and specs[n].kind == 'N':
                    total = c.dec_counter(c.KEY, specs[n].reg, specs[n].rid, specs[n].ctr)
                if specs[n].ctr is not None and not specs[n].ctr.startswith('AAAAAAAAAA'):
                    check_view(env, view, specs[n], jws[n], total)
                if specs[n].signed is not None:
                    env.check((view.verify_button.text == 'Valid Signature') == ok, 'receipts of a valid DEP are shown as valid')
            n += 1


def race(env):
    """another DEP is loaded or verification is stopped in between"""
    good, _t = dep.build([S('r0'), S('r1', sums=('1,00', '0,00', '0,00', '0,00', '0,00'))])
    bad, _t = dep.build([S('r0'), S('r1', chain='AAAAAAAAAAA=')])
    order = env.choose('order', ['gb', 'bg', 'gg', 'bb'])
    look = env.choose('look', [0, 1])
    act = env.choose('act', ['load', 'stop', 'loadverify', 'stopverify'])
    when = env.choose('when', [0, 1, 2, 3, 9])
    files = {'ks.json': store('ROOT')}
    for i in (0, 1):
        files['d%d' % i] = dep_text([(good if order[i] == 'g' else bad, 'LEAF', ['INT', 'ROOT'])])

    def body(ns, path, read):
        w = ns['VerifyDEPWidget']()
        k = ns['KeyStoreWidget']()
        ask(env, k.importKeyStore, 'load', path, ['ks.json'])
        ask(env, w.loadDEP, 'load', path, ['d0'])
        guard(env, w.verify)
        for i in range(when):
            gui.work()
            gui.frame()
        n = len(gui.errors(ns))
        running = w.verify_button.text == 'Verifying...'
        cur = 0
        if act.startswith('load'):
            ask(env, w.loadDEP, 'load', path, ['d1'])
            cur = 1
            env.check(w.verify_button.text == 'Verify' and w.verify_button.disabled == False, 'a DEP that was loaded can be verified')
        elif running:
            guard(env, w.verify)
            env.check(w.verify_button.text == 'Verify', 'verification can be stopped')
        gui.frame()
        if act.endswith('verify') and w.verify_button.disabled == False:
            n = len(gui.errors(ns))
            guard(env, w.verify)
            gui.settle()
            env.check((w.verify_button.text == 'Valid DEP') == (order[cur] == 'g'), VERDICT)
            env.check(len(gui.errors(ns)) - n == (0 if order[cur] == 'g' else 1), 'an error is shown for any other DEP')
        else:
            gui.settle()
            if act == 'load' or running:
                env.check(w.verify_button.text == 'Verify', 'a DEP is not judged by the outcome for another one')
                env.check(len(gui.errors(ns)) == n, 'a DEP is not judged by the outcome for another one')
        receipts = walk(walk(walk(w.treeView.root)[0][1])[2][1])
        env.check(len(receipts) == 2, 'every receipt is shown')
        guard(env, receipts[look][1].press)
        gui.settle()
        env.check(len(views(ns)) == 1, 'a receipt can be shown')
        env.check((views(ns)[0].verify_button.text == 'Valid Signature') == (w.verify_button.text == 'Valid DEP'),
                  'receipts are shown as valid without being asked exactly if their DEP is')
        env.check(gui.G.lost == 0, ALIVE)
    gui.run(files, body)


def single(env):
    """a receipt is entered"""
    fmt = env.choose('fmt', ['jws', 'qr', 'ocr'])
    bad = env.choose('bad', ['no', 'other', 'cut', 'alg'])
    kind, signed, ks, keyt = 'N', 'A', 'LEAF', c.b64(c.KEY)
    if bad == 'no':
        kind = env.choose('kind', ['N', 'T', 'S'])
        signed = env.choose('signed', ['A', 'B', None])
        if signed is not None:
            ks = env.choose('store', ['LEAF', 'ROOT'])
        if kind == 'N':
            keyt = env.choose('key', [c.b64(c.KEY), c.b64(b'x'), '%'])
    s = S('r' + env.str('id', 1, 'ab1'), reg='Kasse' + env.str('reg', 1, '-1'), kind=kind, signed=signed,
          sums=('1,0' + env.str('x', 1, c.DIG), '0,00', '-2' + env.str('y', 1, c.DIG) + ',34', '0,00', '0,00'))
    start = env.choose('total', [None, 10 ** 14 + 7, -(10 ** 9) - 1]) if kind == 'N' else 0
    if start is not None:
        s.sums = ('0,00', '1,20', '0,00', '0,00', '-3,45')
    if s.signed is None and env.choose('zero', [False, True]):
        s.sums = c.ZERO
    jws, total = dep.build([s], None, env.int('start', -30, 130) if start is None else start)
    t = form(fmt, jws[0])

    def body(ns, path, read):
        k = ns['KeyStoreWidget']()
        ask(env, k.importKeyStore, 'load', path, ['ks.json'])
        w = ns['VerifyReceiptWidget']()
        ask(env, w.loadReceipt, 'load', path, ['rec'])
        env.check(w.receiptInput.text == t, 'a receipt is read from a file')
        name = dict(jws='JWS', qr='QR', ocr='OCR')
        w.selectInputType(name[fmt])
        if bad == 'other':
            w.selectInputType('OCR' if fmt == 'jws' else 'JWS')
        elif bad == 'cut':
            w.receiptInput.text = t[0:len(t) // 2]
        elif bad == 'alg':
            w.receiptInput.text = '_X' + t[2:] if fmt != 'jws' else 'X' + t
        guard(env, w.viewReceipt)
        if bad != 'no':
            env.check(len(gui.errors(ns)) == 1 and len(views(ns)) == 0, 'malformed receipts are refused')
            return
        env.check(len(views(ns)) == 1, 'a receipt can be shown')
        view = views(ns)[0]
        gui.frame()
        zero = True
        for x in s.sums:
            zero = zero and c.cents(x) == 0
        env.check(len(gui.errors(ns)) == (1 if s.signed is None and s.kind == 'N' and zero else 0), 'an unsigned zero receipt is reported')
        check_view(env, view, s, jws[0])
        if s.signed is None:
            env.check(view.verify_button.disabled == True and view.verify_button.text == 'No Signature', 'unsigned receipts cannot be verified')
        else:
            env.check(view.verify_button.disabled == False, 'signed receipts can be verified')
            guard(env, view.verify)
            gui.settle()
            good = s.signed == 'A' and ks == 'LEAF'
            env.check((view.verify_button.text == 'Valid Signature') == good, 'a receipt is shown as valid exactly if it verifies')
            env.check(len(gui.errors(ns)) == (0 if good else 1), 'an error is shown for other receipts')
        n = len(gui.errors(ns))
        if view.decrypt_button.disabled:
            env.check(s.kind != 'N', 'counters can be decrypted')
            return
        env.check(s.kind == 'N', 'marked receipts have no counter')
        view.aes_input.text = keyt
        guard(env, view.decrypt)
        gui.frame()
        ok = keyt == c.b64(c.KEY)
        env.check(len(gui.errors(ns)) - n == (0 if ok else 1), 'unusable keys are refused')
        check_view(env, view, s, jws[0], total if ok else None)
        env.check(gui.G.lost == 0, ALIVE)
    gui.run({'ks.json': store(ks), 'rec': t + ('\n' if fmt == 'qr' else '')}, body)


PUBID = 'KID-1'


def shown_keys(w):
    return sorted([t for t, x in walk(w.pubKeyGroup)] + [t for t, x in walk(w.certGroup)])


def keys(env):
    """the key store window"""
    T = env.thorough
    n = 3 if T else 2
    files = {'cert': fixdata.CERTS['LEAF'], 'cert2': fixdata.CERTS['LEAFB'], 'pub': fixdata.PUBS['C'], 'junk': 'no PEM', 'ks.json': store('ROOT', 'INT'),
             'bad1': '[]', 'bad2': '{"certificateOrPublicKeyMap": [1]}', 'bad3': '{', 'bad4': '{"a": 1}'}
    have = {}
    kid = PUBID + env.str('kid', 1, 'xy')

    def sid(name):
        return key_store.numSerialToKeyId(c.CERT[name].serial_number)

    def body(ns, path, read):
        w = ns['KeyStoreWidget']()
        for i in range(n):
            a = env.choose('act%d' % i, ['cert', 'cert2', 'pub', 'import', 'export', 'delete', 'junkcert', 'junkpub', 'junkks', 'missing', 'cancel'])
            e = len(gui.errors(ns))
            bad = 0
            if a in ('cert', 'cert2'):
                ask(env, nobtn(w.addCert), 'load', path, [a])
                name = 'LEAF' if a == 'cert' else 'LEAFB'
                have[sid(name)] = ('Serial: ' + sid(name), name)
            elif a in ('pub', 'junkpub'):
                ask(env, nobtn(w.addPubKey), 'load', path, ['pub' if a == 'pub' else 'junk'])
                guard(env, gui.G.dialogs[-1].shown().receive_value, kid)
                if a == 'pub':
                    have['pub'] = ('Key ID: ' + kid, None)
                bad = 1 if a == 'junkpub' else 0
            elif a == 'import':
                ask(env, w.importKeyStore, 'load', path, ['ks.json'])
                have.clear()
                for name in ('ROOT', 'INT'):
                    have[sid(name)] = ('Serial: ' + sid(name), name)
            elif a == 'export':
                ask(env, w.exportKeyStore, 'save', path, 'out.json')
                ks = key_store.KeyStore.readStoreFromJson(json.loads(read('out.json')))
                same(env, ks, 'the exported store has the keys')
            elif a == 'delete':
                nodes = walk(w.certGroup) + walk(w.pubKeyGroup)
                if nodes:
                    t, x = nodes[env.choose('node%d' % i, list(range(len(nodes))))]
                    guard(env, x.press)
                    for k in list(have):
                        if have[k][0] == t:
                            del have[k]
            elif a == 'junkcert':
                ask(env, nobtn(w.addCert), 'load', path, ['junk'])
                bad = 1
            elif a == 'junkks':
                ask(env, w.importKeyStore, 'load', path, [env.choose('junk%d' % i, ['bad1', 'bad2', 'bad3', 'bad4'])])
                bad = 1
            elif a == 'missing':
                ask(env, w.importKeyStore, 'load', path, ['nothing'])
                bad = 1
            else:
                ask(env, w.importKeyStore, 'load', path, [])
                ask(env, nobtn(w.addCert), 'load', path, [])
                ask(env, nobtn(w.addPubKey), 'load', path, [])
                ask(env, w.exportKeyStore, 'save', path, '')
            env.check(len(gui.errors(ns)) - e == bad, 'errors are shown')
            env.check(shown_keys(w) == sorted(have[k][0] for k in have), 'the keys of the store are shown')
            same(env, gui.G.app.keyStore, 'the store has the keys')

    def same(env, ks, label):
        ids = ks.getKeyIds()
        env.check(len(list(ids)) == len(have), label)
        for k in have:
            t, name = have[k]
            if name is None:
                env.check(ks.getKey(kid) is not None and ks.getCert(kid) is None, label)
            else:
                env.check(ks.getCert(k) == c.CERT[name], label)
    gui.run(files, body)


def junk(env):
    """unusable files"""
    d, _t = dep.build([S('r0')])
    files = {'ks.json': store('ROOT'), 'good': dep_text([(d, 'LEAF', ['INT', 'ROOT'])]), 'key.json': store('ROOT'), 'nokey.json': '{}', 'list.json': '[]',
             'json.json': '{"base64AESKey": "' + c.b64(c.KEY) + '"}', 'half.json': '{',
             'j0': '', 'j1': '{"Belege-Gruppe": [{}]}', 'j2': '{"Belege-Gruppe": {}}', 'j3': '[]',
             'j4': dep_text([(['a.b.c'], 'LEAF', ['INT'])]), 'j5': dep_text([(d, 'LEAF', [])]).replace('"Signaturzertifikat": "', '"Signaturzertifikat": "x'),
             'j6': '{"Belege-Gruppe": [{"Signaturzertifikat": 1, "Zertifizierungsstellen": [], "Belege-kompakt": []}]}'}

    def body(ns, path, read):
        w = ns['VerifyDEPWidget']()
        k = ns['KeyStoreWidget']()
        ask(env, k.importKeyStore, 'load', path, ['ks.json'])
        first = env.choose('first', [False, True])
        if first:
            ask(env, w.loadDEP, 'load', path, ['good'])
        what = env.choose('what', ['j0', 'j1', 'j2', 'j3', 'j4', 'j5', 'j6', 'missing', 'nothing'])
        ask(env, w.loadDEP, 'load', path, [] if what == 'nothing' else [what])
        env.check(len(gui.errors(ns)) == (0 if what == 'nothing' else 1), 'malformed DEPs are refused')
        if not first:
            env.check(w.verify_button.disabled == True, 'nothing can be verified before a DEP is loaded')
        key = env.choose('key', ['json.json', 'nokey.json', 'list.json', 'half.json', 'missing', 'nothing'])
        n = len(gui.errors(ns))
        ask(env, w.loadAES, 'load', path, [] if key == 'nothing' else [key])
        env.check(len(gui.errors(ns)) - n == (0 if key in ('json.json', 'nothing') else 1), 'unusable key files are reported')
        env.check(w.aesInput.text == (c.b64(c.KEY) if key == 'json.json' else ''), 'the key is taken from the file')
        n = len(gui.errors(ns))
        if what == 'j4':
            # nothing of a DEP that cannot be shown stays
            env.check(len(walk(w.treeView.root)) == 0, 'malformed DEPs are not shown')
        elif first:
            env.check(len(walk(w.treeView.root)) == 1, 'the DEP stays if another one cannot be loaded')
            guard(env, w.verify)
            gui.settle()
            env.check(w.verify_button.text == 'Valid DEP' and len(gui.errors(ns)) == n, 'the DEP stays if another one cannot be loaded')
        ask(env, w.loadDEP, 'load', path, ['good'])
        guard(env, w.verify)
        gui.settle()
        env.check(w.verify_button.text == 'Valid DEP', 'the tool can be used again')
        env.check(gui.G.lost == 0, ALIVE)
    gui.run(files, body)


CASES = [dict(name='whole', fn=whole, seconds=dict(quick=100, thorough=300)), dict(name='race', fn=race), dict(name='single', fn=single, seconds=dict(quick=100, thorough=300)), dict(name='keys', fn=keys), dict(name='junk', fn=junk)]
BOUNDS = ('DEPs of three receipts in one to three groups with one deviation of any kind, four kinds of AES key, three key stores; every receipt kind, '
          'format and signature with symbolic contents; all sequences of two (three) actions in the key store window; every point at which a running '
          'verification can be interrupted by another action; seven kinds of malformed DEPs')
OUTSIDE = ('kivy itself (stand-ins keep attributes and call the handlers the layout file names), images and the camera, downloads, two user actions '
           'within one frame; totals of more than 15 digits')
ASSUMPTIONS = ['ideal signatures and hashes', 'kivy runs scheduled callbacks between two user actions']
