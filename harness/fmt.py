"""Independent description of well-formed receipts (used as oracle)."""
import base64

DIG = '0123456789'
HEX = DIG + 'abcdefABCDEF'
UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
B64 = UP + UP.lower() + DIG + '+/'
B64U = UP + UP.lower() + DIG + '-_'
B32 = UP + '234567'


def all_in(s, alpha):
    for ch in s:
        if ch not in alpha:
            return False
    return True


def unpad(s):
    """text without trailing '=', number of '='"""
    n = 0
    while len(s) > 0 and s[len(s) - 1] == '=':
        s = s[:len(s) - 1]
        n += 1
    return s, n


def b64len(s, alpha=B64, maxpad=3):
    """number of bytes a Base64 text stands for, None if it is none"""
    body, pads = unpad(s)
    if pads > maxpad or not all_in(body, alpha):
        return None
    r = len(body) % 4
    if r == 1 or (r == 2 and pads < 2) or (r == 3 and pads < 1):
        return None
    return len(body) * 6 // 8


def b32len(s):
    body, pads = unpad(s)
    if not all_in(body, B32) or len(s) % 8 != 0 or pads not in (0, 1, 3, 4, 6):
        return None
    return len(body) * 5 // 8


def amount(s):
    if s[0:1] == '-':
        s = s[1:]
    if len(s) < 4 or s[len(s) - 3] != ',':
        return False
    a = s[:len(s) - 3]
    return all_in(a, DIG) and all_in(s[len(s) - 2:], DIG) and (len(a) == 1 or a[0] != '0')


def timestamp(s):
    if len(s) != 19:
        return False
    for i, ch in ((4, '-'), (7, '-'), (10, 'T'), (13, ':'), (16, ':')):
        if s[i] != ch:
            return False
    if not all_in(s[0:4] + s[5:7] + s[8:10] + s[11:13] + s[14:16] + s[17:19], DIG):
        return False
    y, m, d = int(s[0:4]), int(s[5:7]), int(s[8:10])
    if y < 1 or m < 1 or m > 12 or d < 1 or d > 31:
        return False
    if d == 31 and (m == 2 or m == 4 or m == 6 or m == 9 or m == 11):
        return False
    if m == 2 and d >= 30:
        return False
    if m == 2 and d == 29 and not (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)):
        return False
    return int(s[11:13]) <= 23 and int(s[14:16]) <= 59 and int(s[17:19]) <= 59


def alg(s):
    return len(s) >= 2 and s[0] == 'R' and s[1] in '123456789' and all_in(s[2:], DIG)


def zda(s):
    if s == 'AT0':
        return True
    return (len(s) >= 3 and s[0] in UP and s[1] in UP and s[2] in '123456789' and all_in(s[3:], DIG))


def serial_kind(s):
    """'serial', 'key' (tax number, UID, GLN) or None"""
    if s == '':
        return None
    if s[0] == '-' and '-' not in s[1:]:
        s = s[1:]
    parts = s.split('-')
    if len(parts) > 2:
        return None
    if len(parts) == 2 and not parts[1].isalnum():
        return None
    s = parts[0]
    if s[0:2] == 'S:':
        return 'key' if len(s) == 11 and all_in(s[2:], DIG) else None
    if s[0:2] == 'U:':
        return 'key' if 3 <= len(s) <= 16 and s[2:].isalnum() and s[2:] == s[2:].upper() else None
    if s[0:2] == 'G:':
        return 'key' if len(s) == 15 and all_in(s[2:], DIG) else None
    if s[0:2] == '0x' or s[0:2] == '0X':
        s = s[2:]
    if s == '' or not all_in(s, HEX):
        return None
    return 'serial'


def encodable(s):
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        return False
    return True


def elements(e, enc='b64'):
    """are the 12 elements of the payload well formed?"""
    az = e[0].split('-')
    if len(az) != 2 or not alg(az[0]) or az[0] != 'R1' or not zda(az[1]):
        return False
    if e[1] == '' or e[2] == '' or not encodable(e[1]) or not encodable(e[2]):
        return False
    if not timestamp(e[3]):
        return False
    for s in e[4:9]:
        if not amount(s):
            return False
    ctr, ser, chain = e[9], e[10], e[11]
    if enc == 'b64':
        n = b64len(ctr)
        if n is None or unpad(ctr)[0] == '':
            return False
        body = unpad(ctr)[0]
        marker = body == 'VFJB' or body == 'U1RP'
        m = b64len(chain)
    else:
        n = b32len(ctr)
        if n is None:
            return False
        # TRA, STO
        body = unpad(ctr)[0]
        marker = n == 3 and (body[0:4] + trail(body[4])) in ('KRJEC', 'KNKE6')
        m = b32len(chain)
    if not (5 <= n <= 16) and not marker:
        return False
    if m != 8:
        return False
    k = serial_kind(ser)
    if k is None:
        return False
    return (k == 'key') == (az[1] == 'AT0')


def trail(ch):
    """last character of a 3 byte group in Base32 with the unused bit cleared"""
    i = 0
    for j in range(32):
        if B32[j] == ch:
            i = j
    return B32[i - i % 2]


def qr(t):
    e = t.split('_')
    return (len(e) == 14 and e[0] == '' and elements(e[1:13]) and b64len(e[13]) is not None)


def ocr(t):
    e = t.split('_')
    return (len(e) == 14 and e[0] == '' and elements(e[1:13], 'b32') and b32len(e[13]) is not None)


def csv(t):
    return qr('_' + '_'.join([x.strip() for x in t.split(';')]))


def jws(t):
    s = t.split('.')
    if len(s) != 3:
        return False
    for x in s:
        if not all_in(x, B64U) or len(x) % 4 == 1:
            return False
    dec = lambda x: base64.urlsafe_b64decode((x + '=' * (-len(x) % 4)).encode('ascii'))
    try:
        if dec(s[0]).decode('utf-8') != '{"alg":"ES256"}':
            return False
        p = dec(s[1]).decode('utf-8')
    except UnicodeError:
        return False
    e = p.split('_')
    return len(e) == 13 and e[0] == '' and elements(e[1:13])


CHECK = dict(jws=jws, qr=qr, ocr=ocr, csv=csv)
