"""P27 A byte order mark never changes what is read."""
import io, json
from librksv import utils, depparser, key_store, verification_state, receipt
from engine.files import SText, SRaw
from . import common as c
from .p13 import OneWay
from .p18 import jws

DP = depparser
BOM = b'\xef\xbb\xbf'


def skip(env):
    """arbitrary content, text and binary"""
    n = env.choose('len', [0, 1, 2, 3, 4, 5, 6] if env.thorough else [0, 1, 2, 3, 4])
    seekable = env.choose('seekable', [True, False])
    if env.choose('text', [True, False]):
        content = env.str('c', n, '\ufeff\ufffe{ a\xef\xbb\xbf\u20ac')
        f = SText(content, seekable)
        want = content[1:] if seekable and n >= 1 and content[0] == '\ufeff' else content
    else:
        content = env.bytes('c', n, [0xef, 0xbb, 0xbf, 0xfe, 0xff, 0x7b, 0x20, 0x00])
        f = SRaw(content, seekable)
        want = content[3:] if seekable and n >= 3 and content[0:3] == BOM else content
    try:
        pos = utils.skipBOM(f)
        rest = f.read()
        if seekable:
            f.seek(pos)
            again = f.read()
        else:
            again = rest
    except Exception:
        env.fail('any file can be looked at')
        return
    env.check(len(rest) == len(want) and rest == want, 'exactly one byte order mark is skipped and nothing else')
    env.check(len(again) == len(want) and again == want, 'the returned position is the one after the byte order mark')


def opened(env, data, kinds):
    """an open file (real classes)"""
    kind = env.choose('file', kinds)
    if kind == 'bytes':
        return io.BytesIO(data)
    if kind == 'buffered':
        return io.BufferedReader(io.BytesIO(data), 8)
    if kind == 'text':
        return io.TextIOWrapper(io.BytesIO(data), encoding='utf-8')
    if kind == 'string':
        return io.StringIO(data.decode('utf-8'))
    return OneWay(data)


def document(env):
    k = env.choose('doc', ['value', 'key store', 'state'])
    if k == 'value':
        return {'a': env.str('v', env.choose('vn', [0, 1, 3]), 'aZ\ufeff\xe4"\\'), 'b': [1, None, True, {}], '\ufeff': env.int('i', -9, 9)}
    if k == 'key store':
        return c.key_store('LEAF', 'INT').writeStoreToJson(c.b64(c.KEY))
    cs = verification_state.ClusterState(verification_state.UsedReceiptIdsUnique)
    cs.addNewCashRegister()
    st = cs.cashRegisters[0]
    st.lastReceiptJWS = st.startReceiptJWS = jws('r1', env.str('v', 1, '0159'))
    st.lastTurnoverCounter = env.int('t', -1000, 1000)
    return cs.writeStateToJson()


def values(env):
    """JSON values, states and key stores"""
    d = document(env)
    lead = env.choose('lead', ['bom', 'none', 'bomspace', 'space', 'spacebom', 'twice', 'cut', 'cut1'])
    text = json.dumps(d, ensure_ascii=env.choose('ascii', [True, False]))
    data = dict(bom=BOM, none=b'', bomspace=BOM + b' \r\n\t', space=b'\n ', spacebom=b' ' + BOM, twice=BOM + BOM, cut=BOM[:2],
                cut1=BOM[1:])[lead] + text.encode('utf-8')
    bad = lead in ('spacebom', 'twice', 'cut', 'cut1')
    f = opened(env, data, ['text', 'string', 'bytes', 'buffered'] if not bad else ['text', 'string'] if not lead.startswith('cut') else
               ['text', 'bytes', 'buffered'])
    try:
        got = utils.readJsonStream(f)
    except ValueError:
        env.check(bad, 'files with and without byte order mark can be read')
        return
    except Exception:
        env.fail('files with and without byte order mark can be read')
        return
    env.check(not bad, 'only one byte order mark at the beginning is skipped')
    env.check(got == d, 'the content is read unchanged')


NAMES = ('Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt')


def flat(p, size):
    return [(receipt_texts(a), b, list(e)) for ch in p.parse(size) for a, b, e in ch]


def receipt_texts(recs):
    return [DP.expandDEPReceipt(r) for r in recs]


def deps(env):
    """every parser, read repeatedly"""
    T = env.thorough
    n = env.choose('groups', [1, 2])
    parser = env.choose('parser', ['seekable', 'certless', 'full', 'stream'])
    x = env.str('x', 1, '0159')
    groups = []
    for i in range(n):
        js = [jws('r%d%d' % (i, j), x) for j in range(env.choose('n%d' % i, [1, 2, 3]))]
        g = {'Signaturzertifikat': c.cert_b64(['LEAF', 'LEAFB'][i]), 'Zertifizierungsstellen': [c.cert_b64('INT')][:i],
                       'Belege-kompakt': js}
        o = env.choose('order%d' % i, [NAMES, NAMES[::-1]] if parser != 'stream' else [NAMES])
        groups.append(dict([(k, g[k]) for k in o]))
    text = env.choose('space', ['', '\n ']) + json.dumps({'Belege-Gruppe': groups})
    bom = env.choose('bom', [True, False])
    if parser == 'stream':
        env.assume(not bom)
    f = opened(env, (BOM if bom else b'') + text.encode('utf-8'), ['oneway'] if parser == 'stream' else
               ['text', 'bytes', 'buffered'] if parser == 'full' else ['bytes', 'buffered'])
    size = env.choose('size', [0, 1, 2, 5])
    try:
        p = DP.FullFileDEPParser(f) if parser == 'full' else DP.IncrementalDEPParser.fromFd(f, parser != 'certless')
        got = flat(p, size)
        # reading starts at the beginning every time
        again = got if parser in ('stream', 'certless') else flat(p, env.choose('size2', [0, 1] if T else [1]))
    except Exception:
        env.fail('a DEP with byte order mark can be read')
        return
    want = [(j, g['Signaturzertifikat'], g['Zertifizierungsstellen']) for g in groups for j in g['Belege-kompakt']]
    for res in (got, again):
        rs = [(j, b, e) for a, b, e in res for j in a]
        env.check(len(rs) == len(want), 'all receipts are read')
        for (j, b, e), (j2, b2, e2) in zip(rs, want):
            env.check(j == j2, 'the receipts are read unchanged')
            if parser != 'certless':
                env.check(utils.exportCertToPEM(b) == b2 and [utils.exportCertToPEM(z) for z in e] == e2, 'the certificates are read unchanged')


CASES = [dict(name='skip', fn=skip), dict(name='values', fn=values), dict(name='deps', fn=deps)]
BOUNDS = ('text and binary files of up to 4 (6) arbitrary characters or bytes; JSON values, states and key stores with arbitrary texts; DEPs of '
          'up to 2 groups and 6 receipts read by every parser with 4 chunk sizes, twice; five kinds of file objects')
OUTSIDE = ('files that cannot be positioned and start with a byte order mark (it is not skipped there); other encodings; '
           'binary files with two byte order marks (the json library skips one itself)')
ASSUMPTIONS = ['file objects obey the io protocol']
