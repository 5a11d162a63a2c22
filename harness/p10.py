"""P10 No receipt identifier is used twice."""
import json, pickle
from librksv import verification_state, verify_receipt
from . import common as c, dep

S = c.Spec
VS = verification_state
Dup = VS.DuplicateReceiptIdException
ACC = 'fresh identifiers are accepted'
REJ = 'a used identifier is reported'
DIG = '0123456789'


def tokens(s):
    """natural order: text, number, text, number, ... (text without regard to case)"""
    out = []
    text = ''
    i = 0
    while i < len(s):
        if s[i] in DIG:
            n = 0
            while i < len(s) and s[i] in DIG:
                n = n * 10 + (ord(s[i]) - 48)
                i += 1
            out.append(text)
            out.append(n)
            text = ''
        else:
            text = text + s[i].lower()
            i += 1
    out.append(text)
    return out


def natural_less(a, b):
    x, y = tokens(a), tokens(b)
    for i in range(min(len(x), len(y))):
        if x[i] != y[i]:
            return x[i] < y[i]
    return len(x) < len(y)


def ident(env, name, lens, alpha='aA01-'):
    return env.str(name, env.choose(name + 'n', lens), alpha)


def tries(env, fn, rid, expect_ok):
    """a check call; the outcome against the model"""
    try:
        fn()
        env.check(expect_ok, REJ)
        return True
    except Dup as e:
        env.check(not expect_ok, ACC)
        env.check(e.receipt == rid, 'the duplicate is named')
        env.check(pickle.loads(pickle.dumps(e)).receipt == rid, 'also from a worker process')
        return False
    except Exception:
        env.fail('checking identifiers fails as duplicate only')
        return False


def unique(env):
    """set backend: check, add, stored form"""
    ids = [ident(env, 'id%d' % i, [1, 2]) for i in range(2)]
    new = ident(env, 'new', [1, 2])
    u = VS.UsedReceiptIdsUnique()
    for i in ids:
        u.add(i)
    store = env.choose('store', ['none', 'json', 'copy'])
    if store == 'json':
        u = VS.UsedReceiptIdsBackend.readFromJson(json.loads(json.dumps(u.writeToJson())), 'x')
    elif store == 'copy':
        st = VS.ClusterState(VS.UsedReceiptIdsUnique)
        st.usedReceiptIds = u
        st.addNewCashRegister()
        v = st.getCashRegisterInfo(0)[2]
        v.add(new)
        u = st.usedReceiptIds
    used = False
    for i in ids:
        used = used or i == new
    if tries(env, lambda: u.check(new), new, not used):
        u.add(new)
        tries(env, lambda: u.check(new), new, False)
    for i in ids:
        tries(env, lambda: u.check(i), i, False)


def merge(env):
    """results of several packages are merged into the set of the cluster"""
    cls = env.choose('backend', [VS.UsedReceiptIdsUnique, VS.UsedReceiptIdsSortedNatural])
    uniq = cls is VS.UsedReceiptIdsUnique
    sizes = env.choose('sizes', [(0, 1, 1), (1, 1, 0), (1, 1, 1), (1, 2, 1), (2, 0, 2), (0, 2, 1), (0, 1, 2)] if uniq or env.thorough
                       else [(0, 1, 1), (1, 1, 1), (1, 0, 1), (0, 2, 1), (0, 1, 2), (1, 2, 0)])
    names = []
    parts = []
    for k, n in enumerate(sizes):
        part = cls()
        mine = []
        for i in range(n):
            x = ident(env, 'm%d%d' % (k, i), [2] if uniq or env.thorough else [1, 2][0:2] if k < 2 else [2], 'aA01')
            # a package is free of duplicates in itself: it was checked receipt by receipt
            if uniq:
                for y in mine:
                    env.assume(x != y)
            elif mine:
                env.assume(natural_less(mine[-1], x))
            part.add(x)
            mine.append(x)
        parts.append(part)
        names.append(mine)
    first, rest = parts[0], parts[1:]
    dup = None
    if uniq:
        seen = list(names[0])
        clash = []
        for mine in names[1:]:
            for x in mine:
                for y in seen:
                    if x == y:
                        clash.append(x)
                        break
            seen = seen + mine
    else:
        clash = []
        last = names[0][-1] if names[0] else None
        for mine in names[1:]:
            if mine and not clash:
                if last is not None and not natural_less(last, mine[0]):
                    clash.append(mine[0])
                last = mine[-1]
    try:
        first.merge(rest)
        env.check(not clash, 'duplicates between packages are reported')
    except Dup as e:
        env.check(len(clash) > 0, 'packages without duplicates are merged')
        ok = False
        for x in clash:
            ok = ok or e.receipt == x
        env.check(ok, 'the duplicate is named')
        return
    except Exception:
        env.fail('merging fails as duplicate only')
        return
    for mine in names:
        for x in mine:
            tries(env, lambda: first.check(x), x, False)
    new = ident(env, 'new', [2], 'aA01')
    if uniq:
        used = False
        for mine in names:
            for x in mine:
                used = used or x == new
        tries(env, lambda: first.check(new), new, not used)
    else:
        last = None
        for mine in names:
            if mine:
                last = mine[-1]
        tries(env, lambda: first.check(new), new, last is None or natural_less(last, new))


def sorted_natural(env):
    lens = [0, 1, 2, 3, 4] if env.thorough else [1, 2, 3]
    a = ident(env, 'a', lens, 'aB01-')
    b = ident(env, 'b', lens, 'aB09_' if env.thorough else 'aB09')
    # numbers of any length: as in time stamps and large counters
    pre = env.choose('pre', ['', '', ('20170301120000', '20170301120000'), ('1000000000', '1000000000'), ('9', '10000000000000000000'),
                             ('K20170301-', 'k20170301-'), ('00000000000', '')][1:])
    if pre:
        env.assume(len(a) < 3)
        env.assume(len(b) < 3)
        a, b = pre[0] + a, pre[1] + b
    if env.choose('swap', [0, 1]):
        a, b = b, a
    u = VS.UsedReceiptIdsSortedNatural()
    tries(env, lambda: u.check(a), a, True)
    u.add(a)
    if env.choose('store', [0, 1]):
        u = VS.UsedReceiptIdsBackend.readFromJson(json.loads(json.dumps(u.writeToJson())), 'x')
    less = natural_less(a, b)
    if tries(env, lambda: u.check(b), b, less):
        u.add(b)
        tries(env, lambda: u.check(a), a, False)
        tries(env, lambda: u.check(b), b, False)


def in_dep(env):
    """identifiers inside a DEP, in every way of verification"""
    how = env.choose('how', dep.HOW)
    specs = [S('r0')]
    what = env.choose('what', ['plain', 'kinds', 'same'])
    if what == 'same':
        # the very same receipt twice
        specs = [S('r%d' % i, ts=c.TS % i) for i in range(3)]
        jws, _ = dep.build(specs)
        at = env.choose('at', [0, 1, 2])
        m = dep.Model(c.KEY)
        specs.insert(at + 1, specs[at])
        jws.insert(at + 1, jws[at])
        dep.judge(env, m, specs, jws, dep.whole(m, jws, c.key_store('LEAF'), how), accepted=ACC, rejected=REJ, exact=at > 0)
        return
    if what == 'plain':
        for i in range(1, 4):
            specs.append(S('r' + env.str('x%d' % i, 1, '0123'), ts=c.TS % i))
    else:
        # receipts of every kind
        for i in (1, 2):
            kind, signed = env.choose('kind%d' % i, [('N', 'A'), ('T', 'A'), ('S', 'A'), ('N', None), ('T', None)])
            specs.append(S('r' + env.str('x%d' % i, 1, '012'), ('0,00', '0,0%d' % i, '0,00', '0,00', '0,00'), kind, signed, ts=c.TS % i))
    jws, _ = dep.build(specs)
    m = dep.Model(c.KEY)
    dep.judge(env, m, specs, jws, dep.whole(m, jws, c.key_store('LEAF'), how), accepted=ACC, rejected=REJ)


def across(env):
    """identifiers used by earlier DEPs and by other registers of the cluster"""
    ks = c.key_store()
    ks.putKey('U:1', c.PUB['A'], None)
    z = dict(zda='AT0', serial='U:1')
    p = S('p' + env.str('p', 1, '01'), **z)
    q = S('q' + env.str('q', 1, '01'), **z)
    pj, _ = dep.build([p, q])
    cs = VS.ClusterState(VS.UsedReceiptIdsUnique)
    dep.V.verifyDEP(dep.dep_dict([('', [], pj)]), ks, c.KEY, cs, None, VS.UsedReceiptIdsUnique)
    if env.choose('stored', [0, 1]):
        cs = VS.ClusterState.readStateFromJson(json.loads(json.dumps(cs.writeStateToJson())))
    other = env.choose('other', [0, 1])
    pre = env.choose('prefix', ['p', 'q', 'r'])
    s = S(pre + env.str('s', 1, '01'), ts=c.TS % 1, **z)
    if not other:
        s.kind, s.signed = env.choose('kind', [('N', 'A'), ('T', 'A'), ('S', 'A'), ('T', None)])
    t = S('r' + env.str('t', 1, '01'), ts=c.TS % 2, **z)
    if other:
        m = dep.Model(c.KEY, prevstart=(p, pj[0]), ids=[p.rid, q.rid])
        jws, _ = dep.build([s, t], pj[0])
    else:
        m = dep.Model(c.KEY, (q, pj[1]), ids=[p.rid, q.rid])
        m.startjws = pj[0]
        jws, _ = dep.build([s, t], pj[1])
    how = env.choose('how', ['verifyDEP', 'procs', 'pool'])
    d = dep.dep_dict([('', [], jws)])

    def run():
        if how == 'verifyDEP':
            x = dep.V.verifyDEP(d, ks, c.KEY, cs, other, VS.UsedReceiptIdsUnique)
        else:
            x = dep.V.verifyParsedDEP(dep.depparser.DictDEPParser(d, 2), ks, c.KEY, cs, other,
                                      c.Pool() if how == 'pool' else None, 2, 1, VS.UsedReceiptIdsUnique)
        for i in m.ids:
            tries(env, lambda: x.usedReceiptIds.check(i), i, False)
        return x.cashRegisters[other]
    dep.judge(env, m, [s, t], jws, run, accepted=ACC, rejected=REJ)


def space_saving(env):
    """a DEP verified with the sorted backend"""
    how = env.choose('how', ['verifyDEP', 'chunks', 'procs', 'pool'])
    specs = [S('r0')]
    ids = ['r0']
    for i in (1, 2):
        specs.append(S(env.choose('pre%d' % i, ['r', 'R']) + env.str('x%d' % i, env.choose('n%d' % i, [1, 2]), '0129'), ts=c.TS % i))
    jws, _ = dep.build(specs)
    ok = True
    bad = []
    for a, b in zip(specs, specs[1:]):
        if not natural_less(a.rid, b.rid):
            bad.append(b.rid)
    d = dep.dep_dict([('', [], jws)])
    B = VS.UsedReceiptIdsSortedNatural
    ks = c.key_store('LEAF')
    try:
        if how == 'verifyDEP':
            dep.V.verifyDEP(d, ks, c.KEY, None, None, B)
        else:
            dep.V.verifyParsedDEP(dep.depparser.DictDEPParser(d, 2), ks, c.KEY, None, None,
                                  c.Pool() if how == 'pool' else None, 1 if how == 'chunks' else 2, 1, B)
        env.check(not bad, 'only increasing identifiers are accepted')
    except Dup as e:
        env.check(len(bad) > 0, 'increasing identifiers are accepted')
        ok = False
        for x in bad:
            ok = ok or e.receipt == x
        env.check(ok, 'the duplicate is named')
    except Exception:
        env.fail('verification fails as duplicate only')


CASES = [dict(name='unique', fn=unique), dict(name='merge', fn=merge), dict(name='sorted_natural', fn=sorted_natural),
         dict(name='in_dep', fn=in_dep), dict(name='across', fn=across), dict(name='space_saving', fn=space_saving)]
BOUNDS = ('set backend: two used identifiers and a new one of 1-2 characters, packages of up to 2 identifiers merged; sorted '
          'backend: every pair of identifiers of 1-3 (thorough 0-4) characters with digits, letters of both cases and '
          'separators; DEPs of 4 receipts with symbolic identifiers, or 3 of every kind, in every way of verification, two registers of a cluster, '
          'stored states')
OUTSIDE = 'longer identifiers; numbers of more than 4300 digits in identifiers'
ASSUMPTIONS = ['within one package the identifiers were checked one by one before merging', 'ideal signatures and hashes']
