"""Models of library code below the encoded functions.

Everything here is exact for concrete operands (the real library runs) unless
noted; for symbolic operands the models are documented in DESIGN.md.
"""
import base64, binascii, hashlib, json, datetime, re, io, copy, codecs
import z3
from .core import C
from . import values as V, ops, rx
from .values import (Sym, SBool, SInt, SStr, SBytes, El, Concretise, mkstr, mkbytes, as_els,
                     as_sbytes, as_sstr, member_raw, eq_el, narrowed, domset, b_and, b_or, b_not,
                     mkbool, byte_el, mkint)
from .ops import HANDLERS, BOUND, OBJ, has_sym, conc, handler

# ---------------------------------------------------------------- base 64 / 32
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64U = B64[:62] + '-_'
B32 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'

def _bits(els):
    ts = [z3.BitVecVal(e, 8) if isinstance(e, int) else e.t for e in els]
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)

def _enc(els, alpha, k, group, outn):
    """encodes byte elements: k bits per character, groups of `group` bytes"""
    out = []
    for i in range(0, len(els), group):
        g = els[i:i + group]
        n = len(g)
        if all(isinstance(e, int) for e in g):
            raw = bytes(g)
            t = (base64.b64encode(raw) if k == 6 else base64.b32encode(raw)).decode()
            std = B64 if k == 6 else B32
            out.extend(ord(alpha[std.index(c)]) if c != '=' else 61 for c in t)
            continue
        nchars = -(-8 * n // k)
        t = _bits(g)
        pad = nchars * k - 8 * n
        if pad:
            t = z3.Concat(t, z3.BitVecVal(0, pad))
        w = t.size()
        key = []
        for j in range(nchars):
            x = z3.simplify(z3.Extract(w - 1 - j * k, w - (j + 1) * k, t))
            if z3.is_bv_value(x):
                out.append(ord(alpha[x.as_long()]))
                key.append(('i', x.as_long()))
            else:
                C.keep.append(x)
                key.append(x.get_id())
                out.append(El(None, 8, frozenset(map(ord, alpha)), (alpha, x)))
        _groups[(k,) + tuple(key)] = g
        out.extend([61] * (outn - nchars))
    return out

_alphaidx = {}

def sextet(e, alpha, k):
    """index of element e (known to be in alpha) as k bit term or int"""
    if isinstance(e, int):
        return alpha.index(chr(e))
    if e.prov is not None and e.prov[0] == alpha:
        return e.prov[1]
    if e.prov is not None:
        pa, s = e.prov
        # same index wherever the alphabets agree on the domain
        d = domset(e)
        if s.size() == k and all(pa.index(chr(c)) == alpha.find(chr(c)) for c in d):
            return s
    d = sorted(domset(e))
    groups = {}
    for c in d:
        i = alpha.find(chr(c))
        if i >= 0:
            groups.setdefault((c - i) % (1 << e.w), []).append(c)
    gs = sorted(groups.items(), key=lambda g: -len(g[1]))
    t = e.t
    w = e.w
    r = t - z3.BitVecVal(gs[0][0], w)
    for off, cs in gs[1:]:
        r = z3.If(member_raw(e, frozenset(cs)), t - z3.BitVecVal(off, w), r)
    r = z3.simplify(z3.Extract(k - 1, 0, r))
    C.keep.append(r)
    return r if not z3.is_bv_value(r) else r.as_long()

_groups = {}        # encoded group (index terms) -> the bytes it was made of

def _joinbits(sx, k, nbytes):
    """first 8*nbytes bits of the k-bit groups"""
    size = {6: 4, 5: 8}.get(k)
    if size is not None:
        out = []
        for i in range(0, len(sx), size):
            g = sx[i:i + size]
            n = len(g) * k // 8
            key = (k,) + tuple(('i', x) if isinstance(x, int) else x.get_id() for x in g)
            h = _groups.get(key)
            if h is not None and len(h) == n:
                out.extend(h)
            elif n:
                out.extend(_joinbits1(g, k, n))
        return out[:nbytes]
    return _joinbits1(sx, k, nbytes)

def _joinbits1(sx, k, nbytes):
    ts = [z3.BitVecVal(x, k) if isinstance(x, int) else x for x in sx]
    t = ts[0] if len(ts) == 1 else z3.Concat(*ts)
    w = t.size()
    return [byte_el(z3.Extract(w - 1 - 8 * i, w - 8 * i - 8, t)) for i in range(nbytes)]

def a2b_base64(els, alpha=B64, strict=False):
    return V.memo(('a2b', alpha, strict), els, lambda: _a2b_base64(els, alpha, strict))

def _a2b_base64(els, alpha=B64, strict=False):
    A = frozenset(map(ord, alpha))
    sx = []
    quad = pads = 0
    done = False
    padding_started = False
    n = 0
    for i, e in enumerate(els):
        if C.decide(eq_el(e, 61)):
            padding_started = True
            if strict and quad == 0:
                raise binascii.Error('Leading padding not allowed' if i == 0 else 'Excess padding not allowed')
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    if strict and i + 1 < len(els):
                        raise binascii.Error('Excess data after padding')
                    done = True
                    break
            continue
        if not C.decide(member_raw(e, A)):
            if strict:
                raise binascii.Error('Only base64 data is allowed')
            continue
        if strict and padding_started:
            raise binascii.Error('Discontinuous padding not allowed')
        pads = 0
        sx.append(sextet(narrowed(e, A), alpha, 6))
        quad = (quad + 1) % 4
        n += 1
    if not done and quad != 0:
        if quad == 1:
            raise binascii.Error('Invalid base64-encoded string: number of data characters (%d) '
                                 'cannot be 1 more than a multiple of 4' % n)
        raise binascii.Error('Incorrect padding')
    if not sx:
        return b''
    return mkbytes(_joinbits(sx, 6, len(sx) * 6 // 8))

def _tobytes(s):
    """base64._bytes_from_decode_data"""
    if isinstance(s, SStr):
        try:
            return s.encode('ascii').els if isinstance(s.encode('ascii'), SBytes) else list(s.encode('ascii'))
        except UnicodeEncodeError:
            raise ValueError('string argument should contain only ASCII characters')
    if isinstance(s, SBytes):
        return s.els
    raise TypeError('argument should be a bytes-like object or ASCII string, not %r' % type(s).__name__)

def _bytes_only(s):
    if isinstance(s, SStr):
        raise TypeError("a bytes-like object is required, not 'str'")
    if not isinstance(s, SBytes):
        raise TypeError('a bytes-like object is required')
    return s.els

def _altalpha(altchars):
    if altchars is None:
        return B64
    a = conc(altchars)
    if isinstance(a, bytes):
        a = a.decode('latin-1')
    return B64[:62] + a

@handler(base64.b64encode)
def h_b64encode(s, altchars=None):
    if not isinstance(s, Sym):
        return base64.b64encode(s, altchars)
    return mkbytes(_enc(_bytes_only(s), _altalpha(altchars), 6, 3, 4))
HANDLERS[base64.standard_b64encode] = h_b64encode

@handler(base64.urlsafe_b64encode)
def h_urlsafe_b64encode(s):
    if not isinstance(s, Sym):
        return base64.urlsafe_b64encode(s)
    return mkbytes(_enc(_bytes_only(s), B64U, 6, 3, 4))

@handler(base64.b64decode)
def h_b64decode(s, altchars=None, validate=False):
    if not isinstance(s, Sym):
        return base64.b64decode(s, altchars, validate)
    els = _tobytes(s)
    if altchars is not None:
        # altchars are translated to +/ (the originals stay valid, too)
        a = conc(altchars)
        a = a if isinstance(a, bytes) else a.encode()
        return V.memo(('b64alt', a, bool(validate)), els,
                      lambda: _a2b_base64(_translate(els, dict(zip(a, b'+/'))), B64, bool(validate)))
    return a2b_base64(els, B64, bool(validate))
HANDLERS[base64.standard_b64decode] = lambda s: h_b64decode(s)

def _translate(els, mp):
    """single characters replaced; provenance kept where only the alphabet's
    representation changes"""
    out = []
    for e in els:
        if isinstance(e, int):
            out.append(mp.get(e, e))
            continue
        d = domset(e)
        hit = [c for c in d if c in mp]
        if not hit:
            out.append(e)
            continue
        if e.prov is not None:
            pa = e.prov[0]
            na = ''.join(chr(mp.get(ord(c), ord(c))) for c in pa)
            if len(set(na)) == len(na):
                out.append(El(None, e.w, frozenset(mp.get(c, c) for c in d), (na, e.prov[1])))
                continue
        t = e.t
        for c in hit:
            t = z3.If(e.t == c, z3.BitVecVal(mp[c], e.w), t)
        out.append(El(z3.simplify(t), e.w, frozenset(mp.get(c, c) for c in d)))
    return out

@handler(base64.urlsafe_b64decode)
def h_urlsafe_b64decode(s):
    if not isinstance(s, Sym):
        return base64.urlsafe_b64decode(s)
    els = _tobytes(s)
    return V.memo('urlsafe', els, lambda: _a2b_base64(_translate(els, {45: 43, 95: 47}), B64))

@handler(binascii.a2b_base64)
def h_a2b(s, strict_mode=False):
    if not isinstance(s, Sym):
        return binascii.a2b_base64(s, strict_mode=strict_mode)
    return a2b_base64(_tobytes(s), B64, strict_mode)

@handler(binascii.b2a_base64)
def h_b2a(s, newline=True):
    if not isinstance(s, Sym):
        return binascii.b2a_base64(s, newline=newline)
    return mkbytes(_enc(_bytes_only(s), B64, 6, 3, 4) + ([10] if newline else []))

@handler(base64.b32encode)
def h_b32encode(s):
    if not isinstance(s, Sym):
        return base64.b32encode(s)
    return mkbytes(_enc(_bytes_only(s), B32, 5, 5, 8))

@handler(base64.b32decode)
def h_b32decode(s, casefold=False, map01=None):
    if not isinstance(s, Sym):
        return base64.b32decode(s, casefold, map01)
    if casefold or map01:
        raise Concretise('b32decode options')
    els = _tobytes(s)
    if len(els) % 8:
        raise binascii.Error('Incorrect padding')
    l = len(els)
    while els and C.decide(eq_el(els[-1], 61)):
        els = els[:-1]
    padchars = l - len(els)
    A = frozenset(map(ord, B32))
    sx = []
    for e in els:
        if not C.decide(member_raw(e, A)):
            raise binascii.Error('Non-base32 digit found')
        sx.append(sextet(narrowed(e, A), B32, 5))
    if l and (padchars not in (0, 1, 3, 4, 6)):
        raise binascii.Error('Incorrect padding')
    if not sx:
        return b''
    return mkbytes(_joinbits(sx, 5, len(sx) * 5 // 8))

@handler(binascii.hexlify, binascii.b2a_hex)
def h_hexlify(s, *a):
    if not isinstance(s, Sym):
        return binascii.hexlify(s, *a)
    return s.hex().encode('ascii')

@handler(binascii.unhexlify, binascii.a2b_hex)
def h_unhexlify(s):
    if not isinstance(s, Sym):
        return binascii.unhexlify(s)
    els = _tobytes(s)
    if len(els) % 2:
        raise binascii.Error('Odd-length string')
    H = frozenset(b'0123456789abcdefABCDEF')
    sx = []
    for e in els:
        if not C.decide(member_raw(e, H)):
            raise binascii.Error('Non-hexadecimal digit found')
        if isinstance(e, int):
            sx.append(int(chr(e), 16))
        elif e.prov is not None and e.prov[0] in (V.HEX, V.HEXU):
            sx.append(e.prov[1])
        else:
            d = V.digit_term(V.byte2char(narrowed(e, H)), 16)
            sx.append(d if not isinstance(d, Sym) else z3.simplify(z3.Extract(3, 0, V.sx(d.t, 5))))
    return mkbytes(_joinbits(sx, 4, len(sx) // 2)) if sx else b''


# ---------------------------------------------------------------- hashes
# Ideal hash: a fresh digest for every input not seen before on this path.
HREG = []

def digest(name, data):
    data = as_sbytes(data) if isinstance(data, SBytes) else bytes(data)
    n = len(data)
    for nm, x, d in HREG:
        if nm == name and len(x) == n:
            if not isinstance(x, Sym) and not isinstance(data, Sym):
                if x == data:
                    return d
                continue
            if C.decide(V.rawbool(as_sbytes(x) == data)):
                return d
    if isinstance(data, Sym):
        C.seg['ideal_hashes'] = C.seg.get('ideal_hashes', 0) + 1
        d = hashlib.new(name, b'ideal digest %d %d' % (C.seed, len(HREG))).digest()
    else:
        d = hashlib.new(name, data).digest()
    HREG.append((name, data, d))
    return d

class ModelHash(object):
    def __init__(self, name, data=b''):
        self.name = name
        self.data = data
        self.digest_size = hashlib.new(name).digest_size
        self.done = False

    def update(self, d):
        if isinstance(d, (str, SStr)):
            raise TypeError('data must be bytes')
        self.data = self.data + d

    def finalize(self):
        return digest(self.name, self.data)

    def digest(self):
        return digest(self.name, self.data)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return ModelHash(self.name, self.data)

for _n in ('sha256', 'sha1', 'sha512', 'sha384', 'sha224', 'md5'):
    HANDLERS[getattr(hashlib, _n)] = (lambda n: lambda data=b'', **k: ModelHash(n, data))(_n)
HANDLERS[hashlib.new] = lambda n, data=b'', **k: ModelHash(n, data)


# ---------------------------------------------------------------- cryptography
SIGREG = []         # (key id, data, raw signature bytes, der)
KS = []             # (key, iv, [keystream elements])

class ModelKeyAlg(object):
    def __init__(self, key):
        self.key = key
        if len(key) not in (16, 24, 32):
            raise ValueError('Invalid key size (%d) for AES.' % (8 * len(key)))

class ModelCTR(object):
    def __init__(self, nonce):
        self.nonce = nonce
        if len(nonce) != 16:
            raise ValueError('Invalid nonce size (%d) for CTR.' % len(nonce))

class ModelCipherCtx(object):
    def __init__(self, key, iv):
        self.key = key
        self.iv = iv
        self.pos = 0

    def update(self, data):
        n = len(data)
        ks = keystream(self.key, self.iv, self.pos + n)[self.pos:]
        self.pos += n
        out = []
        for a, b in zip(as_els(data, bytes), ks):
            if isinstance(a, int) and isinstance(b, int):
                out.append(a ^ b)
            else:
                ta = z3.BitVecVal(a, 8) if isinstance(a, int) else a.t
                tb = z3.BitVecVal(b, 8) if isinstance(b, int) else b.t
                out.append(byte_el(ta ^ tb))
        return mkbytes(out)

    def finalize(self):
        return b''

class ModelCipher(object):
    def __init__(self, key, iv):
        self.key = key
        self.iv = iv

    def encryptor(self):
        return ModelCipherCtx(self.key, self.iv)
    decryptor = encryptor

def keystream(key, iv, n):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    from cryptography.hazmat.backends import default_backend
    if not isinstance(key, Sym) and not isinstance(iv, Sym):
        for k, v, els in KS:
            if isinstance(k, Sym) or isinstance(v, Sym):
                if len(k) == len(key) and C.decide(b_and([V.rawbool(k == key), V.rawbool(v == iv)])):
                    return _more(els, n)
        e = Cipher(algorithms.AES(key), modes.CTR(iv), default_backend()).encryptor()
        return list(e.update(bytes(n)))
    for k, v, els in KS:
        if len(k) == len(key) and C.decide(b_and([V.rawbool(ops.c_eq(k, key)), V.rawbool(ops.c_eq(v, iv))])):
            return _more(els, n)
    els = []
    KS.append((key, iv, els))
    return _more(els, n)

def _more(els, n):
    while len(els) < n:
        els.append(byte_el(C.fresh('ks', 8)))
    return els[:n]

def keyid(pub):
    try:
        nums = pub.public_numbers()
        return ('ec', nums.x, nums.y) if hasattr(nums, 'x') else ('rsa', nums.n)
    except AttributeError:
        return ('obj', id(pub))

def _token_sig():
    n = len(SIGREG)
    h = lambda t: int.from_bytes(hashlib.sha256(b'%s %d %d' % (t, C.seed, n)).digest(), 'big') >> 1
    return h(b'r') | 1, h(b's') | 1

def token_sign(pub, data):
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    kid = keyid(pub)
    r, s = _token_sig()
    der = encode_dss_signature(r, s)
    SIGREG.append((kid, data, r.to_bytes(32, 'big') + s.to_bytes(32, 'big'), der))
    return der

def token_verify(pub, sig, data):
    """raises InvalidSignature unless sig was made for data with that key"""
    from cryptography.exceptions import InvalidSignature
    kid = keyid(pub)
    for k, d, raw, der in SIGREG:
        if k == kid and len(d) == len(data) and len(der) == len(sig):
            if C.decide(b_and([V.rawbool(ops.c_eq(sig, der)), V.rawbool(ops.c_eq(d, data))])):
                return True
    return False

def install_crypto():
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    from cryptography.exceptions import InvalidSignature
    HANDLERS[hashes.Hash] = lambda algorithm, backend=None, ctx=None: ModelHash(algorithm.name)
    def aes(key):
        return ModelKeyAlg(key) if isinstance(key, Sym) else algorithms.AES(key)
    def ctr(nonce):
        return ModelCTR(nonce) if isinstance(nonce, Sym) else modes.CTR(nonce)
    def cipher(algorithm, mode, backend=None):
        if isinstance(algorithm, (ModelKeyAlg, algorithms.AES)) and isinstance(mode, (ModelCTR, modes.CTR)):
            if isinstance(mode, modes.CTR) and isinstance(algorithm, algorithms.AES):
                Cipher(algorithm, mode, backend)        # argument checks
            return ModelCipher(algorithm.key, mode.nonce)
        return Cipher(algorithm, mode, backend)
    HANDLERS[algorithms.AES] = aes
    HANDLERS[modes.CTR] = ctr
    HANDLERS[Cipher] = cipher

    def keys(o, name, a, k):
        if name == 'sign' and isinstance(o, ec.EllipticCurvePrivateKey):
            return token_sign(o.public_key(), k.get('data', a[0] if a else None))
        if name == 'verify':
            sig = a[0] if a else k['signature']
            data = a[1] if len(a) > 1 else k['data']
            if token_verify(o, sig, data):
                return None
            if isinstance(sig, Sym) or isinstance(data, Sym):
                raise InvalidSignature()
            return o.verify(*a, **k)
        return NotImplemented
    OBJ.append((lambda o: isinstance(o, (ec.EllipticCurvePrivateKey, ec.EllipticCurvePublicKey,
                                         rsa.RSAPublicKey)) and
                not type(o).__module__.startswith('harness'), keys))

    def enc_dss(r, s):
        if not has_sym([r, s]):
            return encode_dss_signature(r, s)
        for k, d, raw, der in SIGREG:
            rr, ss = int.from_bytes(raw[:32], 'big'), int.from_bytes(raw[32:], 'big')
            if C.decide(b_and([V.rawbool(ops.c_eq(r, rr)), V.rawbool(ops.c_eq(s, ss))])):
                return der
        return encode_dss_signature(1, 1)
    HANDLERS[encode_dss_signature] = enc_dss

def install_jwt():
    """after the instrumented jwt package was imported"""
    import jwt.utils as ju
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    orig = ju.raw_to_der_signature
    def raw2der(raw, curve):
        if not isinstance(raw, Sym):
            return orig(raw, curve)
        if len(raw) != 2 * ((curve.key_size + 7) // 8):
            raise ValueError('Invalid signature')
        for k, d, r, der in SIGREG:
            if len(r) == len(raw) and C.decide(V.rawbool(ops.c_eq(raw, r))):
                return der
        return encode_dss_signature(1, 1)
    HANDLERS[orig] = raw2der


# ---------------------------------------------------------------- date and time
class SDateTime(Sym):
    """datetime without zone and microseconds, components int/SInt"""
    __slots__ = ('f',)
    pytype = datetime.datetime

    def __init__(self, f):
        self.f = tuple(f)       # y, m, d, H, M, S

    @staticmethod
    def of(x):
        if isinstance(x, SDateTime):
            return x
        if isinstance(x, datetime.datetime) and x.tzinfo is None and x.microsecond == 0:
            return SDateTime((x.year, x.month, x.day, x.hour, x.minute, x.second))
        return None

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])
    hour = property(lambda s: s.f[3])
    minute = property(lambda s: s.f[4])
    second = property(lambda s: s.f[5])
    microsecond = 0
    tzinfo = None

    def _lt(self, o, orequal):
        res = orequal
        for a, b in reversed(list(zip(self.f, o.f))):
            lt = V.rawbool(a < b)
            eq = V.rawbool(ops.c_eq(a, b))
            res = b_or([lt, b_and([eq, res])])
        return mkbool(res)

    def __lt__(self, o):
        o = SDateTime.of(o)
        return NotImplemented if o is None else self._lt(o, False)

    def __le__(self, o):
        o = SDateTime.of(o)
        return NotImplemented if o is None else self._lt(o, True)

    def __gt__(self, o):
        o = SDateTime.of(o)
        return NotImplemented if o is None else o._lt(self, False)

    def __ge__(self, o):
        o = SDateTime.of(o)
        return NotImplemented if o is None else o._lt(self, True)

    def __eq__(self, o):
        o = SDateTime.of(o)
        if o is None:
            return False
        return mkbool(b_and([V.rawbool(ops.c_eq(a, b)) for a, b in zip(self.f, o.f)]))

    def __ne__(self, o):
        return mkbool(b_not(V.rawbool(self.__eq__(o))))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True

    def __sym_value__(self, m):
        return datetime.datetime(*[ops.model_value(x, m) for x in self.f])

    def __sym_pin__(self, site):
        return datetime.datetime(*[conc(x, site) for x in self.f])

    def strftime(self, fmt):
        fmt = conc(fmt)
        out = []
        i = 0
        pos = {'Y': (0, 4), 'm': (1, 2), 'd': (2, 2), 'H': (3, 2), 'M': (4, 2), 'S': (5, 2)}
        fmt = fmt.replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S')
        while i < len(fmt):
            if fmt[i] == '%':
                c = fmt[i + 1]
                if c == '%':
                    out.append(37)
                elif c in pos:
                    j, w = pos[c]
                    x = self.f[j]
                    if isinstance(x, Sym):
                        out.extend(V.uint_digits(x + 10 ** w)[1:])
                    else:
                        # glibc does not pad the year
                        out.extend(ord(q) for q in (str(x) if c == 'Y' else '%0*d' % (w, x)))
                else:
                    raise Concretise('strftime')
                i += 2
            else:
                out.append(ord(fmt[i]))
                i += 1
        return mkstr(out)

    def isoformat(self, sep='T', timespec='auto'):
        if timespec not in ('auto', 'seconds'):
            raise Concretise('isoformat')
        out = []
        for j, (x, w) in enumerate(zip(self.f, (4, 2, 2, 2, 2, 2))):
            if j:
                out.append(ord('--%s::'[j - 1]) if j != 3 else ord(sep))
            if isinstance(x, Sym):
                out.extend(V.uint_digits(x + 10 ** w)[1:])
            else:
                out.extend(ord(q) for q in '%0*d' % (w, x))
        return mkstr(out)

    def replace(self, **k):
        names = ('year', 'month', 'day', 'hour', 'minute', 'second')
        if set(k) - set(names):
            raise Concretise('replace')
        return SDateTime([k.get(n, x) for n, x in zip(names, self.f)])

    def __str__(self):
        return str(self.__sym_pin__('str(datetime)'))


_tre = {}

def strptime(s, fmt):
    if not isinstance(s, Sym) and not isinstance(fmt, Sym):
        return datetime.datetime.strptime(s, fmt)
    if not isinstance(s, SStr):
        raise TypeError('strptime() argument 1 must be str')
    fmt = conc(fmt)
    if set(re.findall('%(.)', fmt)) - set('YmdHMS') or len(re.findall('%(.)', fmt)) != len(set(re.findall('%(.)', fmt))):
        raise Concretise('strptime format')
    pat = _tre.get(fmt)
    if pat is None:
        import _strptime
        pat = _tre[fmt] = _strptime.TimeRE().compile(fmt)
    m = rx.match(pat, s)
    if not m:
        raise ValueError('time data does not match format')
    if m.end() != len(s):
        raise ValueError('unconverted data remains')
    g = m.groupdict()
    v = dict(Y=1900, m=1, d=1, H=0, M=0, S=0)
    for k, x in g.items():
        v[k] = ops.h_int(x)
    if not v['Y'] >= 1:
        raise ValueError('year out of range')
    y, mo, d = v['Y'], v['m'], v['d']
    if d > 28:
        if mo == 2:
            if d > 29:
                raise ValueError('day is out of range for month')
            if not (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)):
                raise ValueError('day is out of range for month')
        elif d > 30:
            if ops.c_in(mo, (4, 6, 9, 11)):
                raise ValueError('day is out of range for month')
    if v['S'] > 59:
        raise ValueError('second must be in 0..59')
    return SDateTime((y, mo, d, v['H'], v['M'], v['S']))

BOUND[(datetime.datetime, 'strptime')] = strptime
def _fromiso(s):
    if isinstance(s, Sym):
        raise Concretise('fromisoformat')
    return datetime.datetime.fromisoformat(s)
BOUND[(datetime.datetime, 'fromisoformat')] = _fromiso


# ---------------------------------------------------------------- json
_PlainEncoder = json.JSONEncoder

class ModelJSONEncoder(_PlainEncoder):
    def default(self, o):
        if isinstance(o, Sym):
            return ops.to_ph(o)
        return super().default(o)

def _json_text(x):
    """JSON input with symbolic characters: all values are explored"""
    if isinstance(x, (SStr, SBytes)):
        return fork_text(x)
    return x

def fork_text(x):
    els = []
    for e in x.els:
        if isinstance(e, int):
            els.append(e)
        elif len(domset(e)) <= 64:
            els.append(C.forkval(e.t))
        else:
            return conc(x, 'json text')
    return bytes(els) if isinstance(x, SBytes) else ''.join(map(chr, els))

@handler(json.JSONEncoder)
def h_encoder(*a, **k):
    return ModelJSONEncoder(*a, **k)

@handler(json.dumps)
def h_dumps(o, **k):
    if has_sym(o, 12):
        o = ops.to_ph(o)
    if 'cls' not in k:
        k['cls'] = ModelJSONEncoder
    return json.dumps(o, **k)

@handler(json.dump)
def h_dump(o, fp, **k):
    fp.write(h_dumps(o, **k))

@handler(json.loads)
def h_loads(s, **k):
    return ops.from_ph(json.loads(_json_text(s), **k))

@handler(json.load)
def h_load(fp, **k):
    return h_loads(ops.callm(fp, 'read'), **k)

def install_ijson():
    try:
        import ijson
    except ImportError:
        return
    def wrap(gen, f):
        for x in gen:
            yield f(x)
    def ph(x):
        return ops.from_ph(x)
    for name in ('parse', 'basic_parse', 'items', 'kvitems'):
        f = getattr(ijson, name, None)
        if f is not None:
            HANDLERS[f] = (lambda f: lambda *a, **k: wrap(f(*a, **k), ph))(f)


# ---------------------------------------------------------------- pickling / copying
import pickle

def picklecopy(x, memo=None):
    """what arrives after a trip through pickle, for values with symbolic content"""
    if isinstance(x, BaseException):
        r = x.__reduce_ex__(4)
        cls, args = r[0], picklecopy(tuple(r[1]))
        o = ops.call(cls, *args)
        if len(r) > 2 and r[2]:
            st = picklecopy(r[2])
            if hasattr(o, '__setstate__') and not isinstance(st, dict):
                o.__setstate__(st)
            else:
                for k, v in st.items():
                    setattr(o, k, v)
        return o
    if type(x) in (list, tuple):
        return type(x)(picklecopy(y) for y in x)
    if type(x) is dict:
        return dict((k, picklecopy(v)) for k, v in x.items())
    return copy.deepcopy(x)

class Pickled(object):
    def __init__(self, x):
        self.x = x

@handler(pickle.dumps)
def h_pdumps(x, *a, **k):
    return Pickled(picklecopy(x))

@handler(pickle.loads)
def h_ploads(p, *a, **k):
    if isinstance(p, Pickled):
        return picklecopy(p.x)
    return pickle.loads(p)

@handler(copy.copy)
def h_copy(x):
    return x if isinstance(x, Sym) else copy.copy(x)

@handler(copy.deepcopy)
def h_deepcopy(x, memo=None):
    return x if isinstance(x, Sym) else copy.deepcopy(x, memo)

import uuid
