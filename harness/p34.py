"""P34 Signing failures never cost a register its continuity."""
import datetime
import requests
from librksv import cashreg, sigsys, algorithms, verify, verification_state, receipt
from . import common as c, dep
from .p21 import Register, PEM, amounts

VS = verification_state
ALG = algorithms.ALGORITHMS['R1']
RX = requests.exceptions
KEEP = 'a receipt that cannot be made leaves the register as it was'
MARK = 'an outage gives a marked receipt with the same contents'
T0 = datetime.datetime(2017, 3, 1, 23, 59, 58)


class Reply(object):
    """answer of the service"""

    def __init__(self, status, data):
        self.status_code = status
        self.ok = status < 400
        self.data = data

    def raise_for_status(self):
        if self.status_code >= 400:
            raise RX.HTTPError('%d' % self.status_code)

    def json(self, **kw):
        if self.data is None:
            raise RX.JSONDecodeError('no JSON', '', 0)
        return self.data

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


FAULTS = {'down': RX.ConnectionError, 'slow': RX.Timeout, 'lost': RX.ChunkedEncodingError, 'tls': RX.SSLError}


class Service(object):
    """the signing service of A-Trust; faults: what goes wrong with the n-th request"""

    def __init__(self, env, user, password, zda='AT1', serial='2f5a81', algo='ES256'):
        self.env = env
        self.user, self.password = user, password
        self.zda, self.serial, self.algo = zda, serial, algo
        self.fault = None
        self.log = []

    def request(self, session, method, url, *a, **kw):
        base = sigsys.SignatureSystemATrustMobile.ATrustURL
        self.env.check(url[:len(base)] == base, 'only the service is asked')
        parts = [x for x in url[len(base):].split('/') if len(x)]
        self.env.check(len(parts) > 1 and parts[0] == self.user, 'the service is asked for the user')
        what = '/'.join(parts[1:])
        self.log.append((method.upper(), what, kw.get('verify', True)))
        f = self.fault
        if f in FAULTS:
            raise FAULTS[f](f)
        if f in ('500', '403'):
            return Reply(int(f), {'error': 'x'})
        if f == 'text':
            return Reply(200, None)
        if what == 'Certificate':
            return Reply(200, {'ZertifikatsseriennummerHex': self.serial, 'alg': self.algo, 'Signaturzertifikat': ''})
        if what == 'ZDA':
            return Reply(200, {'zdaid': self.zda})
        self.env.check(what == 'Sign/JWS' and method.upper() == 'POST', 'the service is asked to sign')
        d = kw['json']
        if d['password'] != self.password:
            return Reply(401, {'error': 'x'})
        return Reply(200, {'result': sigsys.SignatureSystemWorking(self.zda, self.serial, c.PRIV['A']).sign(d['jws_payload'], ALG)})


def with_service(service, body):
    def get(url, params=None, **kw):
        return service.request(None, 'GET', url, **kw)

    def post(url, data=None, json=None, **kw):
        return service.request(None, 'POST', url, json=json, **kw)

    def request(method, url, **kw):
        return service.request(None, method, url, **kw)

    def req(session, method, url, *a, **kw):
        return service.request(session, method, url, *a, **kw)
    new = [(requests, 'get', get), (requests, 'post', post), (requests, 'request', request), (requests.sessions.Session, 'request', req)]
    old = [(o, n, getattr(o, n)) for o, n, v in new]
    try:
        for o, n, v in new:
            setattr(o, n, v)
        return body()
    finally:
        for o, n, v in old:
            setattr(o, n, v)


ALL = ['down', 'slow', 'lost', 'tls', '500', '403', 'text']


def client(env):
    """what the client asks and returns"""
    user = 'u' + env.str('user', env.choose('usern', [1, 3]), '01aZ')
    pw = env.str('pw', env.choose('pwn', [0, 2]), 'a/" ')
    zda = 'AT' + env.str('zda', 1, '0123')
    serial = env.str('serial', 2, '0123456789abcdef')
    algo = env.choose('algo', ['ES256', 'RS256'])
    ca = env.choose('ca', [True, 'ca.pem'])
    s = Service(env, user, pw, zda, serial, algo)
    fault = env.choose('fault', [None, 'construct', 'sign', 'password'])
    kind = env.choose('kind', ALL) if fault in ('construct', 'sign') else None
    payload = '_R1-AT1_a_' + env.str('p', 2, 'ab;"\xe4')

    def body():
        if fault == 'construct':
            s.fault = kind
        try:
            x = sigsys.SignatureSystemATrustMobile(user, pw, ca)
        except Exception:
            env.check(fault == 'construct', 'the service can be used')
            return
        env.check(fault != 'construct', 'a service that does not answer cannot be used')
        env.check(x.zda == zda and x.serial == serial, 'device and provider are those of the service')
        n = len(s.log)
        s.fault = kind
        if fault == 'password':
            s.password = pw + '!'
        try:
            r = x.sign(payload, ALG)
        except Exception:
            env.check(algo != 'ES256', MARK)
            env.check(len(s.log) == n, 'nothing is signed with another algorithm')
            return
        env.check(algo == 'ES256', 'nothing is signed with another algorithm')
        env.check(len(s.log) > n, 'the service is asked to sign')
        for m, w, v in s.log:
            env.check(v == ca, 'the certificate of the service is checked')
        p = r.split('.')
        env.check(len(p) == 3 and p[1] == c.b64u(payload.encode('utf-8')), MARK)
        env.check(p[0] == c.b64u(ALG.jwsHeader().encode('utf-8')), MARK)
        if fault is None:
            env.check(ALG.verify(r, c.PUB['A']), 'the signature of the service is used')
        else:
            env.check(p[2] == c.FAILED_SIG, MARK)
    with_service(s, body)


def history(env):
    """a register that uses the service"""
    T = env.thorough
    n = env.choose('n', [1, 2, 3] if T else [1, 2])
    s = Service(env, 'u1', 'pw')

    def body():
        try:
            dev = sigsys.SignatureSystemATrustMobile('u1', 'pw', 'ca.pem')
            r = Register(env, 'reg', None, 0, 8)
            r.working = dev
            r.receipt([0] * 5)
            out = False
            for i in range(n):
                what = env.choose('what%d' % i, ['sale', 'zero', 'training', 'cancel'])
                s.fault = env.choose('fault%d' % i, [None, 'down', '500', 'text'] if n < 3 else [None, 'down'])
                if out and s.fault is None:
                    r.receipt([0] * 5)
                    out = False
                if s.fault is not None:
                    out = True
                r.receipt([0] * 5 if what == 'zero' else amounts(env, 'a%d' % i, False, [0, 4, 2][i]), 'w',
                          dict(training='T', cancel='S').get(what, 'N'))
                bad = r.jws[-1].split('.')[2] == c.FAILED_SIG
                env.check(bad == (s.fault is not None), 'receipts are marked exactly if the service fails')
            s.fault = None
            if out:
                r.receipt([0] * 5)
        except Exception:
            env.fail('receipts can be produced')
            return
        how = env.choose('how', ['parsed', 'verifyDEP'] if n == 1 else ['parsed'])
        m = dep.Model()
        try:
            st = dep.whole(m, r.jws, c.key_store('LEAF'), how)()
        except Exception:
            env.fail('produced receipts verify')
            return
        env.check(st.lastTurnoverCounter == r.total and st.lastReceiptJWS == r.jws[-1], 'the final state is that of the register')
    with_service(s, body)


class Dead(sigsys.SignatureSystemI):
    """a device that cannot even report an outage"""

    def __init__(self, zda, serial, how):
        self.zda = zda
        self.serial = serial
        self.how = how

    def sign(self, data, algorithm):
        if self.how == 'garbage':
            return 'no JWS'
        if self.how == 'two':
            return 'a.b'
        raise self.how('device')


def failed(env):
    """receipts that cannot be made in between"""
    why = env.choose('why', [KeyError, RuntimeError, IOError, 'garbage', 'two', 'key', 'nokey', 'algorithm', 'overflow', 'amount'])
    size = 5
    start = env.int('start', -9999, 9999)
    kind = env.choose('kind', ['N', 'T', 'S'])
    first = env.choose('first', [True, False])
    before = None
    m = dep.Model(total=start)
    if not first:
        sp = c.Spec('r0', ts='2017-03-01T12:00:00', signed='A', total=0)
        before = dep.build([sp], None, 0)[0][0]
        m = dep.Model(before=(sp, before), total=start, ids=['r0'])
        m.startjws = before
    else:
        start = 0
        kind = env.choose('sort', ['N', 'S']) if kind == 'N' else kind
    r = Register(env, 'reg', before, start, size)
    x = amounts(env, 'a', False)
    t = T0
    dev = r.working
    args = [y / 100 for y in x]
    prefix, key = 'R1', c.KEY
    if why == 'algorithm':
        prefix = 'R9'
    elif why == 'overflow':
        args[0] = 1e12
    elif why == 'amount':
        args[1] = 'x'
    elif why in ('key', 'nokey'):
        r.reg.key = c.KEY[:5] if why == 'key' else None
    else:
        dev = Dead('AT1', '2f5a81', why)
    try:
        r.reg.receipt(prefix, 'bad', t, *(args + [dev, kind == 'T', kind == 'S']))
    except Exception:
        done = False
    else:
        done = True
    r.reg.key = c.KEY
    if done:
        # counters of these receipts need neither key nor room
        env.check(why in ('key', 'nokey', 'overflow') and kind != 'N', 'unusable receipts are refused')
        return
    env.check(r.reg.turnoverCounter == start, KEEP)
    env.check(r.reg.lastReceiptSig == before, KEEP)
    try:
        r.receipt([0] * 5)
        r.receipt(amounts(env, 'b', False, 1))
    except Exception:
        env.fail('the register can be used again')
        return
    try:
        if first:
            st = dep.whole(dep.Model(), r.jws, c.key_store('LEAF'), 'parsed')()
        else:
            st = dep.V.verifyGroup([c.compact(y) for y in r.jws], dep.verifier('LEAF'), c.KEY, None, dep.state_for(m), dep.used_for(m))[0]
    except Exception:
        env.fail('receipts verify after a failure')
        return
    env.check(st.lastTurnoverCounter == r.total, 'receipts verify after a failure')


CASES = [dict(name='client', fn=client), dict(name='history', fn=history), dict(name='failed', fn=failed)]
BOUNDS = ('seven kinds of failure of the signing service at any request; a start receipt and up to 2 (3) receipts of any kind with an outage at any '
          'of them; ten causes for a receipt not to be made, for new registers and at any total')
OUTSIDE = 'answers of the service in another format; the connection itself; amounts with fractions of a cent'
ASSUMPTIONS = ['ideal signatures and hashes', 'requests go through the requests package']
