"""Regular expressions over symbolic strings.

The pattern is parsed by CPython's own parser.  Whether a pattern matches is
decided without forking per character: the set of reachable positions is
computed as formulas over the string's characters.  Groups are only found (by a
faithful backtracking matcher, forking where needed) when they are asked for.
"""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:      # pragma: no cover
    import sre_parse, sre_constants as sc
import z3
from .core import C
from . import values as V
from .values import (Concretise, SStr, SBytes, Sym, b_and, b_or, b_not,
                     member_raw, eq_el, domset)

_parsed = {}

def parsed(pat):
    """tree of compiled pattern (keeps it alive, ids below stay valid)"""
    k = (pat.pattern, pat.flags)
    r = _parsed.get(k)
    if r is None:
        p = pat.pattern
        r = _parsed[k] = sre_parse.parse(p, pat.flags & ~re.UNICODE if isinstance(p, bytes)
                                         else pat.flags)
    return r

_cset = {}
_catre = {}

def _cat(av, c, flags, isbytes):
    name = str(av)
    pat = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D',
           'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S',
           'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}.get(name)
    if pat is None:
        raise Concretise('regex category')
    k = (pat, flags & re.ASCII, isbytes)
    r = _catre.get(k)
    if r is None:
        r = _catre[k] = re.compile(pat.encode() if isbytes else pat, flags & re.ASCII)
    return r.match(bytes((c,)) if isbytes else chr(c)) is not None

def _casevars(c, isbytes):
    if isbytes:
        ch = bytes((c,))
        return {c, ch.lower()[0], ch.upper()[0]}
    ch = chr(c)
    r = {c}
    for x in (ch.lower(), ch.upper()):
        if len(x) == 1:
            r.add(ord(x))
            for y in (x.lower(), x.upper()):
                if len(y) == 1:
                    r.add(ord(y))
    return r

def _test(node, c, flags, isbytes):
    op, av = node
    if op is sc.LITERAL:
        return c == av if not flags & re.I else av in _casevars(c, isbytes)
    if op is sc.NOT_LITERAL:
        return c != av if not flags & re.I else av not in _casevars(c, isbytes)
    if op is sc.ANY:
        return True if flags & re.S else c != 10
    if op is sc.IN:
        neg = False
        hit = False
        cs = _casevars(c, isbytes) if flags & re.I else (c,)
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                hit = hit or a in cs
            elif o is sc.RANGE:
                hit = hit or any(a[0] <= x <= a[1] for x in cs)
            elif o is sc.CATEGORY:
                hit = hit or _cat(a, c, flags, isbytes)
            else:
                raise Concretise('regex set')
        return hit != neg
    raise Concretise('regex node')

SINGLE = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)

def _charset(node, dom, flags, isbytes):
    k = (id(node), dom, flags, isbytes)
    r = _cset.get(k)
    if r is None:
        r = (frozenset(c for c in dom if _test(node, c, flags, isbytes)), node)
        _cset[k] = r
    return r[0]

def charcond(node, e, flags, isbytes):
    if isinstance(e, int):
        return _test(node, e, flags, isbytes)
    d = domset(e)
    return member_raw(e, _charset(node, d, flags, isbytes))


def _word(e, flags, isbytes):
    f = lambda c: _cat('CATEGORY_WORD', c, flags, isbytes)
    if isinstance(e, int):
        return f(e)
    k = ('word', domset(e), flags & re.ASCII, isbytes)
    if k not in _cset:
        _cset[k] = frozenset(c for c in domset(e) if f(c))
    return member_raw(e, _cset[k])

def at_cond(av, els, pos, flags, isbytes, start, end):
    n = end
    name = str(av)
    if name == 'AT_BEGINNING':
        if flags & re.M and pos > 0:
            return eq_el(els[pos - 1], 10)
        return pos == 0
    if name == 'AT_BEGINNING_STRING':
        return pos == 0
    if name == 'AT_END_STRING':
        return pos == n
    if name == 'AT_END':
        if pos == n:
            return True
        if flags & re.M:
            return eq_el(els[pos], 10)
        if pos == n - 1:
            return eq_el(els[pos], 10)
        return False
    if name in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
        a = _word(els[pos - 1], flags, isbytes) if pos > 0 else False
        b = _word(els[pos], flags, isbytes) if pos < n else False
        x = b_or([b_and([a, b_not(b)]), b_and([b_not(a), b])])
        if n == 0:
            x = False
        return x if name == 'AT_BOUNDARY' else b_not(x)
    raise Concretise('regex at')


class Formula(object):
    """positions reachable after matching, as {pos: cond}"""

    def __init__(self, els, flags, isbytes):
        self.els = els
        self.flags = flags
        self.isb = isbytes
        self.n = len(els)

    def seq(self, nodes, pm, flags=None):
        flags = self.flags if flags is None else flags
        for nd in nodes:
            if not pm:
                return pm
            pm = self.node(nd, pm, flags)
        return pm

    def node(self, nd, pm, flags):
        op, av = nd
        out = {}
        if op in SINGLE:
            for p, c in pm.items():
                if p < self.n:
                    add(out, p + 1, b_and([c, charcond(nd, self.els[p], flags, self.isb)]))
            return out
        if op is sc.AT:
            for p, c in pm.items():
                add(out, p, b_and([c, at_cond(av, self.els, p, flags, self.isb, 0, self.n)]))
            return out
        if op is sc.BRANCH:
            for alt in av[1]:
                for p, c in self.seq(alt, pm, flags).items():
                    add(out, p, c)
            return out
        if op is sc.SUBPATTERN:
            g, addf, delf, sub = av
            return self.seq(sub, pm, (flags | addf) & ~delf)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            cur = pm
            for i in range(lo):
                cur = self.seq(sub, cur, flags)
            out = dict(cur)
            i = lo
            while cur and (hi is sc.MAXREPEAT or i < hi):
                nxt = self.seq(sub, cur, flags)
                new = {}
                for p, c in nxt.items():
                    old = out.get(p, False)
                    if old is True:
                        continue
                    # only genuinely new positions or conditions continue
                    add(out, p, c)
                    new[p] = c
                i += 1
                if i > lo + self.n + 1:
                    break
                cur = new
            return out
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            for p, c in pm.items():
                if d >= 0:
                    r = self.seq(sub, {p: True}, flags)
                    x = b_or(list(r.values()))
                else:
                    lo, hi = sub.getwidth()
                    x = False
                    if lo == hi and p - lo >= 0:
                        x = self.seq(sub, {p - lo: True}, flags).get(p, False)
                if op is sc.ASSERT_NOT:
                    x = b_not(x)
                add(out, p, b_and([c, x]))
            return out
        raise Concretise('regex %s' % (op,))


def add(d, p, c):
    if c is False:
        return
    old = d.get(p, False)
    d[p] = b_or([old, c])


class Matcher(object):
    """backtracking matcher with leftmost/greedy semantics"""

    def __init__(self, els, flags, isbytes):
        self.els = els
        self.flags = flags
        self.isb = isbytes
        self.n = len(els)

    def seq(self, nodes, i, pos, g, flags, k):
        if i == len(nodes):
            return k(pos, g)
        nd = nodes[i]
        op, av = nd
        nxt = lambda p, gg: self.seq(nodes, i + 1, p, gg, flags, k)
        if op in SINGLE:
            if pos < self.n and C.decide(charcond(nd, self.els[pos], flags, self.isb)):
                return nxt(pos + 1, g)
            return None
        if op is sc.AT:
            if C.decide(at_cond(av, self.els, pos, flags, self.isb, 0, self.n)):
                return nxt(pos, g)
            return None
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(alt, 0, pos, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.SUBPATTERN:
            gi, addf, delf, sub = av
            fl = (flags | addf) & ~delf
            if gi is None:
                return self.seq(sub, 0, pos, g, fl, nxt)
            def close(p, gg):
                g2 = dict(gg)
                g2[gi] = (pos, p)
                return nxt(p, g2)
            return self.seq(sub, 0, pos, g, fl, close)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            def rep(cnt, p, gg):
                def more():
                    if hi is not sc.MAXREPEAT and cnt >= hi:
                        return None
                    def after(p2, g2):
                        if p2 == p and cnt >= lo:
                            return None
                        return rep(cnt + 1, p2, g2)
                    return self.seq(sub, 0, p, gg, flags, after)
                if cnt < lo:
                    return more()
                if op is sc.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(p, gg)
                r = nxt(p, gg)
                return r if r is not None else more()
            return rep(0, pos, g)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d >= 0:
                r = self.seq(sub, 0, pos, g, flags, lambda p, gg: (p, gg))
            else:
                lo, hi = sub.getwidth()
                r = None
                if pos - lo >= 0:
                    r = self.seq(sub, 0, pos - lo, g, flags,
                                 lambda p, gg: (p, gg) if p == pos else None)
            if (r is not None) != (op is sc.ASSERT):
                return None
            return nxt(pos, r[1] if r is not None else g)
        if op is sc.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            m = b - a
            if pos + m > self.n:
                return None
            if C.decide(b_and([eq_el(x, y) for x, y in zip(self.els[a:b], self.els[pos:pos + m])])):
                return nxt(pos + m, g)
            return None
        raise Concretise('regex %s' % (op,))


class SMatch(object):
    def __init__(self, pat, s, els, start, full=False, groups=None):
        self.re = pat
        self.string = s
        self._els = els
        self._start = start
        self._full = full
        self._g = groups
        self.pos = 0
        self.endpos = len(els)

    def _groups(self):
        if self._g is None:
            self._g = _find(self.re, self._els, self._start, self._full, isinstance(self.string, (bytes, SBytes)))
            if self._g is None:
                # the truth formula said it matches on this path
                C.end('infeasible')
        return self._g

    def _wrap(self, a, b):
        return (V.mkbytes if isinstance(self.string, (bytes, SBytes)) else V.mkstr)(self._els[a:b])

    def _idx(self, i):
        if isinstance(i, str):
            if i not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[i]
        if not 0 <= i <= self.re.groups:
            raise IndexError('no such group')
        return i

    def span(self, i=0):
        return self._groups().get(self._idx(i), (-1, -1))

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    def _one(self, i, default=None):
        a, b = self.span(i)
        return default if a < 0 else self._wrap(a, b)

    def group(self, *ix):
        if not ix:
            ix = (0,)
        r = tuple(self._one(i) for i in ix)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, i):
        return self._one(i)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._one(i, default)) for n, i in self.re.groupindex.items())

    @property
    def lastindex(self):
        raise Concretise('lastindex')

    def expand(self, t):
        raise Concretise('expand')

    def __bool__(self):
        return True


def _find(pat, els, start, full, isb):
    tree = parsed(pat)
    m = Matcher(els, pat.flags, isb)
    n = len(els)
    fin = (lambda p, g: (p, g) if p == n else None) if full else (lambda p, g: (p, g))
    r = m.seq(tree, 0, start, {}, pat.flags, fin)
    if r is None:
        return None
    g = dict(r[1])
    g[0] = (start, r[0])
    return g

def _prep(pat, s):
    if isinstance(s, (SStr, str)):
        if not isinstance(pat.pattern, str):
            raise TypeError('cannot use a bytes pattern on a string-like object')
        return V.as_sstr(s).els, False
    if isinstance(s, (SBytes, bytes)):
        if not isinstance(pat.pattern, bytes):
            raise TypeError('cannot use a string pattern on a bytes-like object')
        return V.as_sbytes(s).els, True
    raise TypeError('expected string or bytes-like object')

def _rng(s, pos, endpos):
    if endpos is not None or pos:
        raise Concretise('regex pos')

def match(pat, s, pos=0, endpos=None, full=False):
    _rng(s, pos, endpos)
    els, isb = _prep(pat, s)
    return V.memo(('rx', pat, full, isb), els, lambda: _match(pat, s, els, isb, full))

def _match(pat, s, els, isb, full):
    try:
        r = Formula(els, pat.flags, isb).seq(parsed(pat), {0: True})
    except Concretise:
        g = _find(pat, els, 0, full, isb)
        return None if g is None else SMatch(pat, s, els, 0, full, g)
    c = r.get(len(els), False) if full else b_or(list(r.values()))
    if not C.decide(c):
        return None
    return SMatch(pat, s, els, 0, full)

def fullmatch(pat, s, pos=0, endpos=None):
    return match(pat, s, pos, endpos, True)

def _searchfrom(pat, s, els, isb, start):
    for st in range(start, len(els) + 1):
        try:
            r = Formula(els, pat.flags, isb).seq(parsed(pat), {st: True})
            if not C.decide(b_or(list(r.values()))):
                continue
            return SMatch(pat, s, els, st)
        except Concretise:
            g = _find(pat, els, st, False, isb)
            if g is not None:
                return SMatch(pat, s, els, st, False, g)
    return None

def search(pat, s, pos=0, endpos=None):
    _rng(s, pos, endpos)
    els, isb = _prep(pat, s)
    return _searchfrom(pat, s, els, isb, 0)

def finditer(pat, s, pos=0, endpos=None):
    _rng(s, pos, endpos)
    els, isb = _prep(pat, s)
    p = 0
    while p <= len(els):
        m = _searchfrom(pat, s, els, isb, p)
        if m is None:
            return
        yield m
        a, b = m.span()
        if a == b:
            # empty match: python may still find a non-empty one here; rare
            p = b + 1
        else:
            p = b

def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._one(1, m._wrap(0, 0)))
        else:
            out.append(m.groups(m._wrap(0, 0)))
    return out

def split(pat, s, maxsplit=0):
    els, isb = _prep(pat, s)
    w = V.mkbytes if isb else V.mkstr
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(w(els[last:a]))
        out.extend(m.groups())
        last = b
        n += 1
    out.append(w(els[last:]))
    return out

def sub(pat, repl, s, count=0):
    els, isb = _prep(pat, s)
    w = V.mkbytes if isb else V.mkstr
    out = []
    last = 0
    n = 0
    if isinstance(repl, (str, bytes)) and (b'\\' if isb else '\\') in repl:
        raise Concretise('regex template')
    for m in finditer(pat, s):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(els[last:a])
        r = repl(m) if callable(repl) else repl
        out.extend(V.as_els(r, bytes if isb else str))
        last = b
        n += 1
    out.extend(els[last:])
    return w(out)

METHODS = dict(match=match, fullmatch=fullmatch, search=search, finditer=finditer,
               findall=findall, split=split, sub=sub)
