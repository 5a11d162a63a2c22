"""Operations of instrumented code (`__S`)."""
import builtins, operator, re, sys, types, math, string, functools, itertools, collections, io
import collections.abc
import z3
from fractions import Fraction
from .core import C, Stop
from . import values as V
from . import rx
from .values import (Sym, SBool, SInt, SFloat, SSeq, SStr, SBytes, Concretise, mkbool, b_and,
                     b_or, b_not, rawbool, mkstr, mkbytes, as_els, as_sstr, as_sbytes)

# entry bitmap is set by explore
entry_map = None

def enter(n):
    if entry_map is not None:
        entry_map[n] = 1


# ---------------------------------------------------------------- symbolic content
_plainiter = {list.__iter__, tuple.__iter__, set.__iter__, frozenset.__iter__, collections.deque.__iter__}

def has_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (str, bytes, int, float, bool, type(None)):
        return False
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        if t.__iter__ not in _plainiter:
            return False        # iterating could consume it
        return any(has_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False

def unique(x):
    """(value, True) if the symbolic scalar x has one value only on this path"""
    v = model_value(x, C.need_model())
    c = rawbool(eq(x, v))
    return v, C.implied(c)

def model_value(x, m):
    """concrete value of x in model m (containers too)"""
    if isinstance(x, SBool):
        return z3.is_true(m.eval(x.b, model_completion=True))
    if isinstance(x, SInt):
        return m.eval(x.t, model_completion=True).as_signed_long()
    if isinstance(x, SFloat):
        n = model_value(x.num, m)
        return n / x.den
    if isinstance(x, SStr):
        return ''.join(map(chr, x.model_value(m)))
    if isinstance(x, SBytes):
        return bytes(x.model_value(m))
    if hasattr(x, '__sym_value__'):
        return x.__sym_value__(m)
    if isinstance(x, list):
        return [model_value(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(model_value(y, m) for y in x)
    if isinstance(x, dict):
        return dict((model_value(k, m), model_value(v, m)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return set(model_value(y, m) for y in x)
    return x

def conc(x, site='?'):
    """concrete value of x, added to the path condition (counted as a pin
    unless the value was the only possible one)"""
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, SFloat):
        if isinstance(x.num, Sym):
            C.approx = True
        n = conc(x.num, site)
        return n / x.den
    if isinstance(x, Sym) and hasattr(x, '__sym_pin__'):
        return x.__sym_pin__(site)
    if isinstance(x, Sym):
        v, u = unique(x)
        if not u:
            C.seg['pins'] += 1
            C.pinsites[site] = C.pinsites.get(site, 0) + 1
        C.assume(rawbool(eq(x, v)))
        return v
    if isinstance(x, list):
        return [conc(y, site) for y in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(conc(y, site) for y in x)
    if type(x) is dict or type(x) is collections.OrderedDict:
        return type(x)((conc(k, site), conc(v, site)) for k, v in x.items())
    if isinstance(x, set):
        return set(conc(y, site) for y in x)
    return x

def eq(a, b):
    return a == b


# ---------------------------------------------------------------- placeholders
# Symbolic strings inside concrete text that only passes through library code.
PH0, PH1 = '\ue0f0', '\ue0f1'
_ph = {}
_phre = re.compile(PH0 + '([0-9]+)' + PH1)
_phint = {}
PHI = 77 * 10 ** 30

def placeholder(s):
    for k, v in _ph.items():
        if v is s:
            return PH0 + str(k) + PH1
    k = len(_ph) + 1
    _ph[k] = s
    return PH0 + str(k) + PH1

def unplace(s):
    """concrete text with placeholders -> symbolic string"""
    if isinstance(s, bytes):
        try:
            t = s.decode('utf-8')
        except UnicodeDecodeError:
            return s
        if PH0 not in t:
            return s
        r = unplace(t)
        return r.encode('utf-8')
    if not isinstance(s, str) or PH0 not in s:
        return s
    els = []
    last = 0
    for m in _phre.finditer(s):
        els.extend(ord(c) for c in s[last:m.start()])
        els.extend(as_els(_ph[int(m.group(1))], str))
        last = m.end()
    els.extend(ord(c) for c in s[last:])
    return mkstr(els)

def to_ph(x):
    """replaces symbolic leaves by placeholders (structure is kept)"""
    if isinstance(x, SStr):
        return placeholder(x)
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, SInt):
        for k, v in _phint.items():
            if v is x:
                return k
        k = PHI + len(_phint)
        _phint[k] = x
        return k
    if isinstance(x, SFloat):
        raise Concretise('float in json')
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(to_ph(y) for y in x)
    if type(x) in (dict, collections.OrderedDict):
        return type(x)((to_ph(k), to_ph(v)) for k, v in x.items())
    return x

def from_ph(x):
    if isinstance(x, str):
        return unplace(x)
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return _phint.get(x, x) if x >= PHI else x
    if type(x) is list:
        return [from_ph(y) for y in x]
    if type(x) is tuple:
        return tuple(from_ph(y) for y in x)
    if type(x) in (dict, collections.OrderedDict):
        return mkdict([(from_ph(k), from_ph(v)) for k, v in x.items()], type(x))
    return x


# ---------------------------------------------------------------- dict / set
_NOKEY = object()

def findkey(d, k):
    """key object stored in d that equals k, or _NOKEY"""
    if isinstance(k, Sym):
        if isinstance(k, (SStr, SBytes, SInt, SBool)) or hasattr(k, '__sym_value__'):
            for x in d:
                if x is k:
                    return x
            for x in list(d):
                if comparable(x, k) and bool(c_eq(x, k)):
                    return x
            return _NOKEY
        raise Concretise('dict key')
    if isinstance(k, tuple) and has_sym(k):
        for x in list(d):
            if isinstance(x, tuple) and len(x) == len(k) and bool(c_eq(x, k)):
                return x
        return _NOKEY
    try:
        if k in d:
            return k if not isinstance(d, dict) else k
    except TypeError:
        raise
    for x in list(d):
        if isinstance(x, Sym) or (isinstance(x, tuple) and has_sym(x)):
            if comparable(x, k) and bool(c_eq(x, k)):
                return x
    return _NOKEY

def comparable(x, k):
    tx = x.pytype if isinstance(x, Sym) else type(x)
    tk = k.pytype if isinstance(k, Sym) else type(k)
    num = (int, bool, float)
    if tx in num and tk in num:
        return True
    return issubclass(tx, tk) or issubclass(tk, tx)

def mkdict(pairs, ty=dict):
    d = ty()
    for k, v in pairs:
        x = findkey(d, k)
        d[k if x is _NOKEY else x] = v
    return d

def mkset(items):
    s = set()
    for k in items:
        if findkey(s, k) is _NOKEY:
            s.add(k)
    return s

def getitem(o, k):
    if isinstance(o, dict):
        if type(o) in (dict, collections.OrderedDict, collections.defaultdict):
            x = findkey(o, k)
            if x is _NOKEY:
                return o[k] if not isinstance(k, Sym) else _missing(o, k)
            return o[x]
        return o[k]
    if isinstance(k, Sym):
        if isinstance(o, (str, bytes, list, tuple)) or isinstance(o, SSeq):
            if not isinstance(k, (SInt, SBool)):
                raise TypeError('indices must be integers')
            n = len(o)
            if not (k >= -n and k < n):
                raise IndexError('index out of range')
            return o[k.__index__()]
        if instrumented(type(o)):
            return o[k]
        return o[conc(k, 'getitem')]
    return o[k]

def _missing(o, k):
    if hasattr(o, '__missing__') and isinstance(o, collections.defaultdict) and o.default_factory:
        o[k] = v = o.default_factory()
        return v
    raise KeyError(k)

def setitem(v, o, k):
    if isinstance(o, dict) and type(o) in (dict, collections.OrderedDict, collections.defaultdict):
        x = findkey(o, k)
        o[k if x is _NOKEY else x] = v
        return
    o[k] = v

def delitem(o, k):
    if isinstance(o, dict) and type(o) in (dict, collections.OrderedDict, collections.defaultdict):
        x = findkey(o, k)
        if x is _NOKEY:
            raise KeyError(k)
        del o[x]
        return
    del o[k]

_BINF = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
         'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow,
         'LShift': operator.lshift, 'RShift': operator.rshift, 'BitOr': operator.or_,
         'BitAnd': operator.and_, 'BitXor': operator.xor}

def iitem(opname, o, k, v):
    cur = getitem(o, k)
    if opname == 'Add' and isinstance(cur, list):
        cur += v
        r = cur
    elif opname in ('Mod', 'Sub', 'BitOr', 'BitAnd', 'BitXor', 'Add', 'Mult'):
        r = iop({'Mod': '%', 'Sub': '-', 'BitOr': '|', 'BitAnd': '&', 'BitXor': '^', 'Add': '+',
                 'Mult': '*'}[opname], cur, v)
    else:
        r = _BINF[opname](cur, v)
    setitem(r, o, k)

def dict_method(d, name, a, k):
    if name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__'):
        x = findkey(d, a[0])
        if name == '__contains__':
            return x is not _NOKEY
        if name == 'get':
            return d[x] if x is not _NOKEY else (a[1] if len(a) > 1 else None)
        if name == '__getitem__':
            return getitem(d, a[0])
        if name == 'pop':
            if x is _NOKEY:
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            return d.pop(x)
        if x is _NOKEY:
            d[a[0]] = a[1] if len(a) > 1 else None
            return d[a[0]]
        return d[x]
    if name == 'update':
        for src in a:
            it = src.items() if isinstance(src, dict) or hasattr(src, 'items') else src
            for kk, v in list(it):
                setitem(v, d, kk)
        for kk, v in k.items():
            setitem(v, d, kk)
        return None
    return getattr(d, name)(*a, **k)

def set_method(s, name, a):
    if name in ('add',):
        if findkey(s, a[0]) is _NOKEY:
            s.add(a[0])
        return None
    if name in ('discard', 'remove'):
        x = findkey(s, a[0])
        if x is _NOKEY:
            if name == 'remove':
                raise KeyError(a[0])
            return None
        s.remove(x)
        return None
    if name == '__contains__':
        return findkey(s, a[0]) is not _NOKEY
    its = [list(x) for x in a]
    if name in ('update', 'union'):
        r = s if name == 'update' else mkset(list(s))
        for it in its:
            for x in it:
                if findkey(r, x) is _NOKEY:
                    r.add(x)
        return None if name == 'update' else r
    if name in ('difference', 'intersection', 'difference_update', 'intersection_update'):
        keep = []
        for x in list(s):
            hits = [findkey(set(it), x) is not _NOKEY for it in its]
            if (name.startswith('diff') and not any(hits)) or (name.startswith('inter') and all(hits)):
                keep.append(x)
        if name.endswith('update'):
            s.clear()
            s.update(keep)
            return None
        return set(keep)
    if name == 'isdisjoint':
        return all(findkey(s, x) is _NOKEY for x in its[0])
    if name == 'issubset':
        o = mkset(its[0])
        return all(findkey(o, x) is not _NOKEY for x in s)
    if name == 'issuperset':
        return all(findkey(s, x) is not _NOKEY for x in its[0])
    if name in ('symmetric_difference', 'symmetric_difference_update'):
        o = mkset(its[0])
        r = set([x for x in s if findkey(o, x) is _NOKEY] + [x for x in o if findkey(s, x) is _NOKEY])
        if name.endswith('update'):
            s.clear()
            s.update(r)
            return None
        return r
    return getattr(s, name)(*a)


# ---------------------------------------------------------------- comparisons
def c_eq(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is b:
            return True
        return a == b
    if isinstance(a, (dict, set, frozenset)) and isinstance(b, (dict, set, frozenset)) and \
            (has_sym(a) or has_sym(b)):
        return _deq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (has_sym(a) or has_sym(b)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = rawbool(c_eq(x, y))
            if r is False:
                return False
            out.append(r)
        return mkbool(b_and(out))
    return a == b

def _deq(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if len(a) != len(b):
        return False
    for k in list(a):
        x = findkey(b, k)
        if x is _NOKEY:
            return False
        if isinstance(a, dict) and not bool(c_eq(a[k], b[x])):
            return False
    return True

def c_ne(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (dict, set, frozenset, list, tuple)):
        r = c_eq(a, b)
        return mkbool(b_not(rawbool(r)))
    return a != b

def _ord(f, name):
    def g(a, b):
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (has_sym(a) or has_sym(b)):
            if name == '<=':
                return set_method(a, 'issubset', (b,))
            if name == '>=':
                return set_method(a, 'issuperset', (b,))
            if name == '<':
                return len(a) < len(b) and set_method(a, 'issubset', (b,))
            return len(a) > len(b) and set_method(a, 'issuperset', (b,))
        return f(a, b)
    return g
c_lt = _ord(operator.lt, '<')
c_le = _ord(operator.le, '<=')
c_gt = _ord(operator.gt, '>')
c_ge = _ord(operator.ge, '>=')

def c_in(a, b):
    if isinstance(b, Sym):
        if isinstance(b, SSeq):
            return mkbool(b.containsraw(a))
        return a in b
    if isinstance(b, (str, bytes)):
        if isinstance(a, Sym):
            if isinstance(b, str):
                if not isinstance(a, SStr):
                    raise TypeError("'in <string>' requires string as left operand")
                return mkbool(as_sstr(b).containsraw(a))
            return mkbool(as_sbytes(b).containsraw(a))
        return a in b
    if isinstance(b, (dict, set, frozenset)):
        return findkey(b, a) is not _NOKEY
    if isinstance(b, (type({}.keys()),)):
        return findkey(list(b), a) is not _NOKEY if has_sym(a) else findkey(dict.fromkeys(b), a) is not _NOKEY
    if isinstance(b, (list, tuple)):
        out = []
        for x in b:
            if x is a:
                return True
            r = rawbool(c_eq(x, a))
            if r is True:
                return True
            out.append(r)
        return mkbool(b_or(out))
    return a in b

def c_notin(a, b):
    return mkbool(b_not(rawbool(c_in(a, b))))

def c_is(a, b):
    if isinstance(a, SBool) and isinstance(b, (bool, SBool)) or isinstance(b, SBool) and isinstance(a, bool):
        return a == b
    if isinstance(a, Sym) and isinstance(b, (str, bytes, int)) and not isinstance(b, bool):
        # identity of values is an implementation detail; equality is what counts
        return a == b if isinstance(a, SInt) and isinstance(b, int) and -5 <= b <= 256 else False
    return a is b

def c_isnot(a, b):
    return mkbool(b_not(rawbool(c_is(a, b))))

def chain(left, *pairs):
    r = True
    for op, lam in pairs:
        right = lam()
        r = op(left, right)
        if not r:
            return r
        left = right
    return r


# ---------------------------------------------------------------- operators, formatting
_OPS = {'|': operator.or_, '&': operator.and_, '-': operator.sub, '^': operator.xor,
        '+': operator.add, '*': operator.mul, '%': operator.mod}

def binop(op, a, b):
    if op == '%':
        if isinstance(a, str):
            return str_mod(a, b)
        if isinstance(a, SStr):
            return str_mod(a, b)
        if isinstance(a, bytes) and has_sym(b):
            return a % conc(b, 'bytes%')
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (has_sym(a) or has_sym(b)):
        return set_method(a, {'|': 'union', '&': 'intersection', '-': 'difference',
                              '^': 'symmetric_difference'}[op], (b,))
    try:
        return _OPS[op](a, b)
    except Concretise:
        return _OPS[op](conc(a, op), conc(b, op))

def iop(op, a, b):
    if isinstance(a, set) and op in '|&-^':
        set_method(a, {'|': 'update', '&': 'intersection_update', '-': 'difference_update',
                       '^': 'symmetric_difference_update'}[op], (b,))
        return a
    if op == '+' and isinstance(a, (list, bytearray)):
        a += b
        return a
    return binop(op, a, b)

def iattr(op, o, name, v):
    setattr(o, name, iop(op, getattr(o, name), v))

def to_text(x):
    """str(x) keeping symbolic content: str or SStr"""
    if isinstance(x, SStr):
        return x
    if isinstance(x, str):
        return unplace(x)
    if isinstance(x, SInt):
        return V.int_to_str(x)
    if isinstance(x, SBool):
        return 'True' if x else 'False'
    if isinstance(x, V.SFloat):
        t = V.float_repr(x)
        if t is not None:
            return t
    if isinstance(x, Sym):
        return str(conc(x, 'str()'))
    if isinstance(x, BaseException):
        f = type(x).__str__
        if isinstance(f, types.FunctionType):
            return to_text(f(x))
        if len(x.args) == 1:
            if isinstance(x, KeyError):
                return to_repr(x.args[0])
            return to_text(x.args[0])
        if len(x.args) == 0:
            return ''
        if not has_sym(x.args):
            return str(x)
        return to_repr(x.args)
    f = getattr(type(x), '__str__', None)
    if isinstance(f, types.FunctionType):
        return unplace(f(x)) if isinstance(f(x), str) else f(x)
    if has_sym(x):
        return to_repr(x)
    return str(x)

def to_repr(x):
    if isinstance(x, SStr):
        # quoting is not modelled character by character
        return mkstr([39] + x.els + [39])
    if isinstance(x, SBytes):
        return mkstr([98, 39] + as_els(x.decode('latin-1'), str) + [39])
    if isinstance(x, SInt):
        return V.int_to_str(x)
    if isinstance(x, Sym):
        return repr(conc(x, 'repr()'))
    if type(x) in (list, tuple, set) and has_sym(x):
        els = [ord({list: '[', tuple: '(', set: '{'}[type(x)])]
        for i, y in enumerate(x):
            if i:
                els += [44, 32]
            els += as_els(to_repr(y), str)
        if type(x) is tuple and len(x) == 1:
            els.append(44)
        els.append(ord({list: ']', tuple: ')', set: '}'}[type(x)]))
        return mkstr(els)
    if type(x) is dict and has_sym(x):
        els = [123]
        for i, (k, v) in enumerate(x.items()):
            if i:
                els += [44, 32]
            els += as_els(to_repr(k), str) + [58, 32] + as_els(to_repr(v), str)
        return mkstr(els + [125])
    return repr(x)

def fmt_one(x, conv, spec):
    if conv == 'r' or conv == 'a':
        x = to_repr(x)
    elif conv == 's':
        x = to_text(x)
    if not spec:
        return to_text(x)
    if isinstance(spec, Sym):
        spec = conc(spec, 'format spec')
    if isinstance(x, SInt):
        m = re.match(r'^(0?)(\d*)([dxX]?)$', spec)
        if m:
            base = 16 if m.group(3) in ('x', 'X') else 10
            r = V.int_to_str(x, base, m.group(3) == 'X')
            w = int(m.group(2) or 0)
            if len(r) < w:
                if m.group(1):
                    els = as_els(r, str)
                    neg = els[:1] == [45]
                    els = els[1:] if neg else els
                    r = mkstr(([45] if neg else []) + [48] * (w - len(r)) + els)
                else:
                    r = mkstr([32] * (w - len(r)) + as_els(r, str))
            return r
    if isinstance(x, SFloat):
        m = re.match(r'^\.(\d+)f$', spec)
        if m:
            return V.float_fixed(x, int(m.group(1)))
    if isinstance(x, SStr):
        m = re.match(r'^([<>]?)(\d*)s?$', spec)
        if m:
            w = int(m.group(2) or 0)
            pad = [32] * max(0, w - len(x))
            return mkstr(pad + x.els if m.group(1) == '>' else x.els + pad)
    if isinstance(x, Sym):
        return format(conc(x, 'format'), spec)
    return unplace(format(x, spec))

def str_format(s, a, k):
    if isinstance(s, SStr):
        s = conc(s, 'format string')
    if not has_sym(a, 2) and not has_sym(k, 2) and not any(
            isinstance(x, BaseException) or not isinstance(x, (str, bytes, int, float, type(None)))
            for x in list(a) + list(k.values())):
        return s.format(*a, **k)
    out = []
    auto = 0
    fm = string.Formatter()
    for lit, field, spec, conv in fm.parse(s):
        out.extend(ord(c) for c in lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        elif field[:1] in '.[':
            field = str(auto) + field
            auto += 1
        m = re.match(r'^[^.\[]+', field)
        head = m.group(0)
        obj = a[int(head)] if head.isdigit() else k[head]
        rest = field[len(head):]
        while rest:
            m = re.match(r'\.([^.\[]+)|\[([^\]]+)\]', rest)
            if m.group(1):
                obj = getattr(obj, m.group(1))
            else:
                i = m.group(2)
                obj = getitem(obj, int(i) if i.isdigit() else i)
            rest = rest[m.end():]
        if spec and '{' in spec:
            spec = str_format(spec, a[auto:], k)
            auto += 1
        out.extend(as_els(fmt_one(obj, conv, spec), str))
    return mkstr(out)

_MODRE = re.compile(r'%(?:\((?P<k>[^)]*)\))?(?P<f>[-+ 0#]*)(?P<w>\*|\d+)?(?:\.(?P<p>\d+))?(?P<t>[a-zA-Z%])')

def str_mod(s, a):
    if not has_sym(s) and not has_sym(a):
        return s % a
    if isinstance(s, SStr):
        s = conc(s, 'format string')
    out = []
    last = 0
    args = a if isinstance(a, tuple) else (a,)
    i = 0
    for m in _MODRE.finditer(s):
        out.extend(ord(c) for c in s[last:m.start()])
        last = m.end()
        t = m.group('t')
        if t == '%':
            out.append(37)
            continue
        f = m.group('f')
        w = m.group('w')
        if w == '*':
            w = args[i]
            w = conc(w)
            i += 1
        if m.group('k') is not None:
            x = getitem(a, m.group('k'))
        else:
            if i >= len(args):
                raise TypeError('not enough arguments for format string')
            x = args[i]
            i += 1
        spec = '%' + f + (str(w) if w is not None else '') + ('.' + m.group('p') if m.group('p') else '') + t
        if not has_sym(x):
            out.extend(ord(c) for c in unplace(spec % (x,)) ) if not isinstance(unplace(spec % (x,)), Sym) \
                else out.extend(unplace(spec % (x,)).els)
            continue
        if t == 's':
            r = to_text(x)
        elif t == 'r':
            r = to_repr(x)
        elif t in 'dixX':
            if isinstance(x, SFloat):
                x = x.to_int()
            elif isinstance(x, SSeq):
                raise TypeError('%d format: a real number is required')
            r = V.int_to_str(x, 16 if t in 'xX' else 10, t == 'X') if isinstance(x, Sym) else str(x)
        elif t in 'fF':
            if isinstance(x, (SInt, SBool)):
                x = SFloat.of(x)
            elif isinstance(x, SSeq):
                raise TypeError('must be real number')
            r = V.float_fixed(x, int(m.group('p') or 6))
        else:
            r = spec % (conc(x, '%' + t),)
            w = None
        els = as_els(r, str)
        if m.group('p') and t == 's':
            els = els[:int(m.group('p'))]
        if w is not None and len(els) < int(w):
            n = int(w) - len(els)
            if '-' in f:
                els = els + [32] * n
            elif '0' in f and t != 's':
                neg = els[:1] == [45]
                els = ([45] if neg else []) + [48] * n + (els[1:] if neg else els)
            else:
                els = [32] * n + els
        out.extend(els)
    if m_none_used(s, args, a, i):
        raise TypeError('not all arguments converted during string formatting')
    out.extend(ord(c) for c in s[last:])
    return mkstr(out)

def m_none_used(s, args, a, i):
    return isinstance(a, tuple) and i < len(args) or (not isinstance(a, (tuple, dict)) and i == 0)

def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(ord(c) for c in p)
        else:
            x, conv, spec = p
            out.extend(as_els(fmt_one(x, {-1: None, 115: 's', 114: 'r', 97: 'a'}[conv], spec), str))
    return mkstr(out)


# ---------------------------------------------------------------- calls
HANDLERS = {}       # callable -> handler(*a, **k)
BOUND = {}          # (class object, name) -> handler for class/static methods
OBJ = []            # (predicate(o), handler(o, name, a, k)) for model objects

def handler(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco

_instr_globals = {}

def instrumented(f):
    """python code that has been through the transformer, or engine code"""
    if isinstance(f, types.MethodType):
        f = f.__func__
    if isinstance(f, types.FunctionType):
        g = f.__globals__
        return '__S__' in g or g.get('__name__', '').startswith('engine')
    if isinstance(f, type):
        m = sys.modules.get(f.__module__)
        return m is not None and ('__S__' in m.__dict__ or f.__module__.startswith('engine'))
    return False

SAFE = set()
for _f in (list, tuple, iter, enumerate, zip, reversed, hasattr, getattr, setattr, delattr,
           callable, id, vars, object, super, property, staticmethod, classmethod, slice,
           itertools.chain, itertools.chain.from_iterable, itertools.islice, itertools.repeat,
           itertools.zip_longest, itertools.cycle, itertools.tee, itertools.product,
           functools.partial, functools.wraps, collections.deque,
           operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge,
           operator.add, operator.sub, operator.mul, operator.neg, operator.not_, operator.truth,
           types.MethodType):
    SAFE.add(_f)

def is_safe(f):
    try:
        if f in SAFE:
            return True
    except TypeError:
        pass
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return True
        if instrumented(f):
            return True
        if issubclass(f, tuple) and hasattr(f, '_fields'):
            return True
        if getattr(f, '__init__', None) is not None and instrumented(f.__init__):
            return True
        return False
    n = getattr(f, '__name__', '')
    if n in ('__init__', '__new__', '__init_subclass__', '__setattr__', '__getattribute__',
             '__eq__', '__ne__', '__repr__', '__hash__', '__reduce__', '__reduce_ex__'):
        return True
    if isinstance(f, types.BuiltinMethodType):
        s = getattr(f, '__self__', None)
        if isinstance(s, (list, types.GeneratorType, collections.deque, BaseException)):
            return True
        if s is not None and type(s).__name__ in ('itemgetter',):
            return True
    return False

_METHDESC = (type(str.strip), type(str.__add__))

def call(f, *a, **k):
    t = type(f)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        try:
            return h(*a, **k)
        except Concretise as e:
            return f(*conc(list(a), str(e)), **conc(k, str(e)))
    if t is types.FunctionType or t is types.MethodType:
        if instrumented(f):
            return f(*a, **k)
        if t is types.MethodType:
            return callm(f.__self__, f.__name__, *a, **k) if model_obj(f.__self__) else foreign(f, a, k)
        return foreign(f, a, k)
    if t is types.BuiltinMethodType:
        s = getattr(f, '__self__', None)
        if s is not None and not isinstance(s, types.ModuleType):
            return callm(s, f.__name__, *a, **k)
        return foreign(f, a, k)
    if t in _METHDESC and a and getattr(f, '__objclass__', None) in (
            str, bytes, int, float, dict, set, list):
        return callm(a[0], f.__name__, *a[1:], **k)
    if t is type and instrumented(f):
        return f(*a, **k)
    return foreign(f, a, k)

def foreign(f, a, k):
    if not has_sym(a) and not has_sym(k):
        try:
            return f(*a, **k)
        except Concretise:
            pass
    if is_safe(f) or instrumented(f) or instrumented(getattr(type(f), '__call__', None)):
        return f(*a, **k)
    site = 'call ' + getattr(f, '__qualname__', getattr(f, '__name__', repr(f)))
    return f(*conc(list(a), site), **conc(k, site))

_SYMCLS = {}

def model_obj(o):
    for pred, h in OBJ:
        if pred(o):
            return h
    return None

def callm(o, name, *a, **k):
    if isinstance(o, Sym):
        return symm(o, name, a, k)
    t = type(o)
    if t is str or t is bytes:
        if name == 'format' and t is str:
            return str_format(o, a, k)
        if name == 'join':
            items = list(a[0])
            if any(isinstance(x, Sym) for x in items):
                return (as_sstr(o) if t is str else as_sbytes(o)).join(items)
            return o.join(items)
        if has_sym(a) or has_sym(k):
            x = as_sstr(o) if t is str else as_sbytes(o)
            return symm(x, name, a, k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, dict):
        if t in (dict, collections.OrderedDict, collections.defaultdict):
            if name in ('get', 'pop', 'setdefault', '__contains__', 'update', '__getitem__'):
                return dict_method(o, name, a, k)
            return getattr(o, name)(*a, **k)
    elif isinstance(o, (set, frozenset)):
        if has_sym(o) or has_sym(a):
            return set_method(o, name, a)
        return getattr(o, name)(*a, **k)
    elif t is list:
        if name == 'sort':
            o[:] = h_sorted(o, **k)
            return None
        if name in ('index', 'count', 'remove') and has_sym(o + list(a)):
            return list_method(o, name, a)
        return getattr(o, name)(*a, **k)
    elif t is re.Pattern:
        if name in rx.METHODS:
            i = 1 if name == 'sub' else 0
            s = k.get('string', a[i] if len(a) > i else None)
            if isinstance(s, Sym) or (name == 'sub' and has_sym(a)):
                try:
                    return rx.METHODS[name](o, *a, **k)
                except Concretise as e:
                    return getattr(o, name)(*conc(list(a), 're.' + name), **k)
            return getattr(o, name)(*a, **k)
    elif t is types.ModuleType:
        return call(getattr(o, name), *a, **k)
    elif t is bytearray and has_sym(a):
        raise NotImplementedError('bytearray with symbolic content')
    elif isinstance(o, type):
        h = BOUND.get((o, name))
        if h is None:
            for b in o.__mro__[1:]:
                h = BOUND.get((b, name))
                if h is not None and getattr(o, name, None) is not None and \
                        not instrumented(getattr(o, name)):
                    break
                h = None
        if h is not None:
            try:
                return h(*a, **k)
            except Concretise as e:
                return getattr(o, name)(*conc(list(a), str(e)), **conc(k, str(e)))
        return call_attr(o, name, a, k)
    h = model_obj(o) if OBJ else None
    if h is not None:
        r = h(o, name, a, k)
        if r is not NotImplemented:
            return r
        f = getattr(o, name)
        return f(*a, **k) if instrumented(f) else foreign(f, a, k)
    return call_attr(o, name, a, k)

def call_attr(o, name, a, k):
    f = getattr(o, name)
    if type(f) is types.BuiltinMethodType and getattr(f, '__self__', None) is o:
        return foreign(f, a, k)
    return call(f, *a, **k)

def list_method(o, name, a):
    if name == 'count':
        return sum(1 for x in o if bool(c_eq(x, a[0])))
    for i, x in enumerate(o):
        if bool(c_eq(x, a[0])):
            if name == 'index':
                return i
            del o[i]
            return None
    raise ValueError('not in list')

_ATTRS = {}

def symm(o, name, a, k):
    """method of a symbolic value"""
    f = getattr(o, name, None)
    if f is None or (name.startswith('model_') or name in ('els',)):
        if not hasattr(o.pytype, name):
            raise AttributeError("'%s' object has no attribute '%s'" % (o.pytype.__name__, name))
        return getattr(conc(o, 'method ' + name), name)(*conc(list(a)), **conc(k))
    try:
        if name == 'join':
            return f(list(a[0]))
        return f(*a, **k)
    except Concretise as e:
        return getattr(conc(o, 'method ' + name), name)(*conc(list(a), 'method ' + name), **conc(k))


# ---------------------------------------------------------------- builtin functions
def symtypes(x):
    return x.pytype

@handler(isinstance)
def h_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        for y in ts:
            if isinstance(y, tuple):
                if h_isinstance(x, y):
                    return True
            elif y is type(x) or issubclass(x.pytype, y):
                return True
        return False
    return isinstance(x, t)

@handler(type)
def h_type(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].pytype
    return type(*a, **k)

@handler(len)
def h_len(x):
    return len(x)

@handler(bool)
def h_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return x != 0
    return bool(x)

@handler(int)
def h_int(x=0, base=None, **k):
    if k:
        base = k.get('base')
    if isinstance(base, Sym):
        base = conc(base)
    if isinstance(x, SSeq):
        return V.str_to_int(x, 10 if base is None else base)
    if isinstance(x, SBool):
        return x.as_int()
    if isinstance(x, SInt):
        return x
    if isinstance(x, SFloat):
        return x.to_int()
    if base is None:
        return int(x)
    return int(x, base)

@handler(float)
def h_float(x=0.0):
    if isinstance(x, SSeq):
        return V.str_to_float(x)
    if isinstance(x, (SInt, SBool)):
        return SFloat.of(x)
    if isinstance(x, SFloat):
        return x
    return float(x)

@handler(str)
def h_str(x='', *a, **k):
    if a or k:
        if isinstance(x, SBytes):
            return x.decode(*a, **k)
        return str(x, *a, **k)
    if isinstance(x, SBytes):
        raise Concretise('str(bytes)')
    return to_text(x)

@handler(repr)
def h_repr(x):
    return to_repr(x)

@handler(ascii)
def h_ascii(x):
    return ascii(conc(x, 'ascii'))

@handler(format)
def h_format(x, spec=''):
    return fmt_one(x, None, spec)

@handler(bytes)
def h_bytes(x=b'', *a, **k):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SStr):
        if not a and not k:
            raise TypeError('string argument without an encoding')
        return x.encode(*a, **k)
    if isinstance(x, SInt):
        return bytes(x.__index__())
    if isinstance(x, (str,)) or a or k:
        return bytes(x, *a, **k)
    if isinstance(x, (int, bytes, bytearray)):
        return bytes(x)
    if hasattr(x, '__iter__'):
        items = list(x)
        if has_sym(items):
            els = []
            for i in items:
                if isinstance(i, SInt):
                    if i.lo < 0 or i.hi > 255:
                        if not (i >= 0 and i <= 255):
                            raise ValueError('bytes must be in range(0, 256)')
                    els.append(V.byte_el(V.sx(i.t, 8)))
                else:
                    if not 0 <= i <= 255:
                        raise ValueError('bytes must be in range(0, 256)')
                    els.append(i)
            return mkbytes(els)
        return bytes(items)
    return bytes(x)

@handler(bytearray)
def h_bytearray(*a, **k):
    if has_sym(a):
        return bytearray(conc(a[0], 'bytearray'), *a[1:], **k)
    return bytearray(*a, **k)

@handler(ord)
def h_ord(x):
    if isinstance(x, SSeq):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        e = x.els[0]
        if isinstance(e, int):
            return e
        d = V.domset(e)
        return V.mkint(z3.ZeroExt(1, e.t), min(d), max(d))
    return ord(x)

@handler(chr)
def h_chr(x):
    if isinstance(x, SInt):
        raise Concretise('chr')
    return chr(x)

@handler(round)
def h_round(x, n=None):
    return round(x) if n is None else round(x, n)

@handler(abs)
def h_abs(x):
    return abs(x)

@handler(divmod)
def h_divmod(a, b):
    return divmod(a, b)

@handler(pow)
def h_pow(*a):
    return pow(*a)

@handler(math.ceil)
def h_ceil(x):
    if isinstance(x, (SInt, SFloat)):
        return x.__ceil__()
    return math.ceil(x)

@handler(math.floor)
def h_floor(x):
    if isinstance(x, (SInt, SFloat)):
        return x.__floor__()
    return math.floor(x)

@handler(math.trunc)
def h_trunc(x):
    if isinstance(x, (SInt, SFloat)):
        return x.__trunc__()
    return math.trunc(x)

@handler(math.isinf, math.isnan)
def h_isinf(x):
    if isinstance(x, Sym):
        return False
    return math.isinf(x)
HANDLERS[math.isnan] = lambda x: False if isinstance(x, Sym) else math.isnan(x)
HANDLERS[math.isfinite] = lambda x: True if isinstance(x, Sym) else math.isfinite(x)
HANDLERS[math.fsum] = lambda it: (lambda l: sum(l[1:], l[0]) if l and has_sym(l) else math.fsum(l))(list(it))

@handler(set, frozenset)
def h_set(it=()):
    items = list(it)
    if has_sym(items):
        return mkset(items)
    return set(items)

@handler(frozenset)
def h_frozenset(it=()):
    return frozenset(h_set(it))

@handler(dict)
def h_dict(*a, **k):
    if not a:
        return dict(**k)
    src = a[0]
    d = {}
    if isinstance(src, dict) or hasattr(src, 'keys'):
        if isinstance(src, dict):
            d = dict(src)
        else:
            d = mkdict([(x, src[x]) for x in src.keys()])
    else:
        d = mkdict([tuple(p) for p in src])
    for x, v in k.items():
        setitem(v, d, x)
    return d

@handler(collections.OrderedDict)
def h_odict(*a, **k):
    if not a:
        return collections.OrderedDict(**k)
    src = a[0].items() if isinstance(a[0], dict) else a[0]
    d = mkdict([tuple(p) for p in src], collections.OrderedDict)
    for x, v in k.items():
        setitem(v, d, x)
    return d

@handler(collections.Counter)
def h_counter(it=()):
    d = collections.Counter()
    for x in it:
        kx = findkey(d, x)
        d[x if kx is _NOKEY else kx] += 1
    return d

def _wrapkey(key):
    if key is None:
        return None
    return lambda x: call(key, x)

@handler(sorted)
def h_sorted(it, key=None, reverse=False):
    return sorted(list(it), key=_wrapkey(key), reverse=reverse)

@handler(min)
def h_min(*a, key=None, **k):
    return min(*a, key=_wrapkey(key), **k)

@handler(max)
def h_max(*a, key=None, **k):
    return max(*a, key=_wrapkey(key), **k)

@handler(sum)
def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r

@handler(any)
def h_any(it):
    return any(it)

@handler(all)
def h_all(it):
    return all(it)

@handler(map)
def h_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))

@handler(filter)
def h_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))

@handler(range)
def h_range(*a):
    return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])

@handler(next)
def h_next(it, *d):
    if d:
        try:
            return next(it)
        except StopIteration:
            return d[0]
    return next(it)

@handler(hash)
def h_hash(x):
    if isinstance(x, Sym):
        raise Concretise('hash')
    return hash(x)

@handler(print)
def h_print(*a, **k):
    return None

@handler(functools.reduce)
def h_reduce(f, it, *init):
    it = iter(it)
    r = init[0] if init else next(it)
    for x in it:
        r = call(f, r, x)
    return r

@handler(functools.partial)
def h_partial(f, *a, **k):
    def g(*b, **l):
        kk = dict(k)
        kk.update(l)
        return call(f, *(a + b), **kk)
    return g

@handler(itertools.groupby)
def h_groupby(it, key=None):
    return itertools.groupby(it, _wrapkey(key))

@handler(itertools.takewhile)
def h_takewhile(f, it):
    return itertools.takewhile(lambda x: call(f, x), it)

@handler(itertools.dropwhile)
def h_dropwhile(f, it):
    return itertools.dropwhile(lambda x: call(f, x), it)

@handler(itertools.starmap)
def h_starmap(f, it):
    return (call(f, *x) for x in it)

@handler(itertools.filterfalse)
def h_filterfalse(f, it):
    return (x for x in it if not call(f, x))

@handler(itertools.accumulate)
def h_accumulate(it, f=None, initial=None):
    out = []
    r = initial
    if initial is not None:
        out.append(r)
    for x in it:
        r = x if r is None and not out else (r + x if f is None else call(f, r, x))
        out.append(r)
    return iter(out)

@handler(operator.itemgetter)
def h_itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: getitem(o, ks[0])
    return lambda o: tuple(getitem(o, x) for x in ks)

@handler(issubclass)
def h_issubclass(a, b):
    return issubclass(a, b)

@handler(operator.contains)
def h_contains(a, b):
    return c_in(b, a)
HANDLERS[operator.mod] = lambda a, b: binop('%', a, b)
HANDLERS[operator.concat] = operator.add
HANDLERS[operator.getitem] = getitem

@handler(collections.defaultdict)
def h_defaultdict(*a, **k):
    d = collections.defaultdict(a[0] if a else None)
    if len(a) > 1:
        dict_method(d, 'update', (a[1],), k)
    return d

BOUND[(int, 'from_bytes')] = lambda b, byteorder='big', signed=False: (
    V.int_from_bytes(b, byteorder, signed=signed) if isinstance(b, SBytes)
    else int.from_bytes(_bytelist(b), byteorder, signed=signed))

def _bytelist(b):
    return b

def _fromhex(s):
    raise Concretise('fromhex')
BOUND[(bytes, 'fromhex')] = lambda s: bytes.fromhex(s) if not isinstance(s, Sym) else _fromhex(s)
BOUND[(dict, 'fromkeys')] = lambda it, v=None: mkdict([(x, v) for x in it])
BOUND[(itertools.chain, 'from_iterable')] = itertools.chain.from_iterable
for _n in ('strip', 'lower', 'upper', 'encode', 'join', 'split', 'replace', 'isdigit', 'format',
           'startswith', 'endswith', 'rstrip', 'lstrip', 'isalnum'):
    BOUND[(str, _n)] = (lambda n: lambda o, *a, **k: callm(o, n, *a, **k))(_n)
for _n in ('decode', 'join', 'split', 'replace', 'hex'):
    BOUND[(bytes, _n)] = (lambda n: lambda o, *a, **k: callm(o, n, *a, **k))(_n)


# re module functions
def _refn(name):
    orig = getattr(re, name)
    i = 2 if name in ('sub', 'subn') else 1
    def h(pattern, *a, **k):
        if has_sym(a) or has_sym(k) or isinstance(pattern, Sym):
            flags = k.pop('flags', 0)
            if isinstance(pattern, Sym):
                pattern = conc(pattern, 're pattern')
            p = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
            if name in ('match', 'fullmatch', 'search', 'findall', 'finditer') and len(a) > 1:
                p = re.compile(pattern, a[1])
                a = a[:1]
            return callm(p, name, *a, **k)
        return orig(pattern, *a, **k)
    return h
for _n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'split', 'sub'):
    HANDLERS[getattr(re, _n)] = _refn(_n)
