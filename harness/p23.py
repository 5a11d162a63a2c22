"""P23 Amounts are read and totalled exactly to the cent."""
from librksv import utils, receipt, verification_state, algorithms, sigsys, cashreg
from . import common as c
import datetime, base64

AL = '0123456789,-+. _\n٣x'
DIG = '0123456789'


def grammar(s):
    """-?(0|[1-9][0-9]*),[0-9][0-9] written out; cents or None"""
    neg = False
    if s[0:1] == '-':
        neg = True
        s = s[1:]
    if len(s) < 4:
        return None
    if s[len(s) - 3] != ',':
        return None
    v = 0
    for i in range(len(s)):
        if i == len(s) - 3:
            continue
        if s[i] not in DIG:
            return None
        v = v * 10 + int(s[i])
    if len(s) > 4 and s[0] == '0':
        return None
    return -v if neg else v


def read(env):
    n = env.choose('len', list(range(0, 10 if env.thorough else 8)))
    s = env.str('s', n, AL)
    r = utils.getReceiptFloat(s)
    g = grammar(s)
    if g is None:
        env.check(r is None, 'text outside the amount grammar is rejected')
    else:
        env.check(r is not None, 'well-formed amount is accepted')
        env.check(int(round(r * 100)) == g, 'value is exact to the cent')


SHAPES = ['d,dd', '-d,dd', 'Dd,dd', '-Ddd,dd', 'Ddddd,dd', '-Dddddd,dd']


def amount(env, name, shape):
    return env.chars(name, [dict(D='123456789', d=DIG).get(x, x) for x in shape])


def make(sums, ctr=c.TRA):
    r = receipt.Receipt('AT1', 'reg', 'r1', c.TS % 0, sums[0], sums[1], sums[2], sums[3], sums[4],
                        ctr, '2f5a81', c.chain_value('x'))
    r.sign(c.HEADER, c.FAILED_SIG)
    return r


def null(env):
    k = env.choose('shapes', [('d,dd', '-d,dd', 'd,dd', '-d,dd', 'd,dd'), ('-d,dd', 'd,dd', '-d,dd', 'd,dd', '-d,dd'),
                              ('Dddddd,dd', '-Dddddd,dd', 'd,dd', 'd,dd', 'd,dd')])
    sums = [amount(env, 's%d' % i, sh) for i, sh in enumerate(k)]
    r = make(sums)
    zero = True
    for s in sums:
        zero = zero and c.cents(s) == 0
    env.check(r.isNull() == zero, 'zero receipt exactly if all five amounts are zero')
    for s, f in zip(sums, (r.sumA, r.sumB, r.sumC, r.sumD, r.sumE)):
        env.check(int(round(f * 100)) == c.cents(s), 'each amount is kept exactly')


def total(env):
    """total of five amounts as added to the running total (cancellation receipt)"""
    sh = env.choose('shapes', [('Dddddd,dd', '-Dddddd,dd', 'Ddd,dd', '-d,dd', 'd,dd'),
                               ('-Dddddd,dd', '-Dddd,dd', '-d,dd', 'd,dd', '-Ddd,dd'),
                               ('Dddddd,dd', 'Dddddd,dd', 'Dddddd,dd', 'Dddddd,dd', 'Dddddd,dd')])
    sums = [amount(env, 's%d' % i, x) for i, x in enumerate(sh)]
    start = env.int('start', -(1 << 32), 1 << 32)
    jws = c.sign_jws(c.payload('AT1', 'reg', 'r1', c.TS % 0, sums, c.STO, '2f5a81', c.chain_value('x')))
    st = verification_state.CashRegisterState()
    st.lastReceiptJWS = jws
    st.lastTurnoverCounter = start
    st.updateFromDEPGroup([c.compact(jws)], c.KEY)
    env.check(st.lastTurnoverCounter == start + sum(c.cents(s) for s in sums),
              'total of five amounts is exact to the cent')


def cashregister(env):
    """the cash register adds the amounts it prints"""
    v = [env.int('c0', -1100, 1100), env.int('c1', 99000, 101000)] + env.choose('rest', [
        [0, 0, 0], [-5, 123456, -99999999], [10 ** 9 - 1, 1, -70]])
    if env.choose('order', [0, 1]):
        v = v[::-1]
    kind = env.choose('kind', ['N', 'S', 'T'])
    start = env.int('start', -(1 << 32), 1 << 32)
    reg = cashreg.CashRegister('reg', None, start, c.KEY, 8)
    ss = sigsys.SignatureSystemBroken('AT1', '2f5a81')
    f = [x / 100 for x in v]
    rec = reg.receipt('R1', 'r1', datetime.datetime(2017, 3, 1, 12), f[0], f[1], f[2], f[3], f[4], ss,
                      kind == 'T', kind == 'S')
    r, p = receipt.Receipt.fromJWSString(rec.toJWSString("R1"))
    for s, x in zip((r.sumAStr, r.sumBStr, r.sumCStr, r.sumDStr, r.sumEStr), v):
        env.check(c.cents(s) == x, 'printed amounts are exact')
    env.check(reg.turnoverCounter == start + (0 if kind == 'T' else sum(v)), 'running total is exact')


def markers(env):
    """training / cancellation exactly by the marker"""
    n = env.choose('len', [4, 5, 8])
    raw = env.bytes('raw', 3 if n == 4 else n)
    ctr = base64.b64encode(raw).decode('utf-8')
    res = c.outcome(receipt.Receipt, 'AT1', 'reg', 'r1', c.TS % 0, '0,00', '0,00', '0,00', '0,00', '0,00',
                    ctr, '2f5a81', c.chain_value('x'))
    if res[0] == 'exc':
        env.check(n == 4 and raw != b'TRA' and raw != b'STO', 'only malformed counters are rejected')
        return
    r = res[1]
    env.check(r.isDummy() == (raw == b'TRA'), 'training receipt exactly by its marker')
    env.check(r.isReversal() == (raw == b'STO'), 'cancellation receipt exactly by its marker')


CASES = [dict(name='read', fn=read), dict(name='null', fn=null), dict(name='total', fn=total),
         dict(name='markers', fn=markers), dict(name='cashregister', fn=cashregister)]
BOUNDS = ('amount texts of up to 7 (thorough 9) characters over an alphabet of digits, sign, comma and '
          'hostile characters; five amounts of up to 7 integer digits; running totals of 33 bits; counters of 3, 5 and 8 bytes')
OUTSIDE = 'amounts beyond the stated digits (binary floating point loses cents from about 16 digits on)'
ASSUMPTIONS = ['floats of at most 15 significant decimal digits are treated as exact decimals where the engine proves that rounding cannot matter']
