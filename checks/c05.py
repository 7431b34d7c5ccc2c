"""C05: numeric and ascii constants."""
import random
import z3
from tmpl import *

BOUNDS = ('decimal constants of 1..11 digits, hexadecimal of 1..9 digits ($d, dH, 0Xd; every digit position over 0-9A-Fa-f), octal of 1..12 digits, binary of 1..33 digits (%d, dB, 0Bd), '
          'every digit symbolic; ascii constants of 1..5 characters, in both kinds of quotes, every printable character symbolic, every escape sequence; malformed constants with a '
          'symbolic wrong character; both byte orders')
OUTSIDE = 'longer constants; the empty ascii constant; characters outside printable ASCII; spellings which are labels (FC84H)'
DEC = b'0123456789'
HEXU, HEXL = b'ABCDEF', b'abcdef'
PRINT = bytes(range(32, 127))


def be(v, n=4):
    return [z3.Extract(8 * k + 7, 8 * k, v) for k in reversed(range(n))]


def order(cpu, v):
    """bytes of a DL"""
    b = be(z3.Extract(31, 0, v))
    return b if cpu.startswith('68') else b[::-1]


def digit(c, base):
    """value (64 bit) of digit character c (bv8) of the given base"""
    if base <= 10:
        return z3.ZeroExt(60, z3.Extract(3, 0, c))
    c = z3.ZeroExt(56, c)
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))


def value(ds, base):
    v = z3.BitVecVal(0, 64)
    for d in ds:
        v = v * base + digit(d.bv, base)
    return v


def num(cpu, v):
    """the line's outcome: its bytes, or an error when the constant does not fit 32 bits"""
    big = z3.UGT(v, 0xffffffff)
    def f(path):
        return 'error' if path.split(big) else order(cpu, v)
    return f


def digits(j, n, dom, first=None):
    return [j.byte(first if (first and k == 0) else dom) for k in range(n)]


def tx(ds):
    return ''.join(d.text for d in ds)


def jobs(tier):
    J = []
    rnd = random.Random(7)
    cpus = ('6502', '6800', 'z80')

    # decimal
    for n in range(1, 12):
        cpu = cpus[n % 3]
        j = job('decimal %d' % n)
        ds = digits(j, n, DEC)
        v = value(ds, 10)
        J.append(finish(j, cpu, [L(' dl ' + tx(ds), num(cpu, v))]))
    # hexadecimal
    for n in range(1, 10):
        for form in ('$', 'H', '0X', '0x', 'h'):
            if tier == 'quick' and n > 4 and form in ('0x', 'h'):
                continue
            full = n <= (2 if tier == 'quick' else 3)
            positions = [None] if full else range(n)
            if not full and tier == 'quick' and form != '$':
                positions = [0, n - 1]
            for p in positions:
                cpu = cpus[(n + len(form)) % 3]
                j = job('hex %s %d digits%s' % (form, n, '' if p is None else ' pos %d' % p))
                ds = []
                for k in range(n):
                    cls = [DEC, HEXU, HEXL][rnd.randrange(3)]
                    d = DEC + HEXU + HEXL if (p is None or k == p) else cls
                    if form in 'hH' and k == 0:
                        d = DEC
                    ds.append(j.byte(d))
                t = tx(ds)
                t = {'$': '$' + t, 'H': t + 'H', 'h': t + 'h', '0X': '0X' + t, '0x': '0x' + t}[form]
                J.append(finish(j, cpu, [L(' dl ' + t, num(cpu, value(ds, 16)))]))
    # octal
    for n in range(1, 13):
        cpu = cpus[(n + 1) % 3]
        j = job('octal %d' % n)
        ds = digits(j, n, b'01234567')
        J.append(finish(j, cpu, [L(' dl %s%s' % (tx(ds), 'Qq'[n % 2]), num(cpu, value(ds, 8)))]))
    # binary
    for n in list(range(1, 10)) + [15, 16, 17, 24, 31, 32, 33]:
        cpu = cpus[(n + 2) % 3]
        for form in ('%', 'B', '0B', 'b', '0b'):
            if form in ('b', '0b') and tier == 'quick' and n not in (8, 32, 33):
                continue
            j = job('binary %s %d' % (form, n))
            ds = digits(j, n, b'01')
            t = tx(ds)
            t = {'%': '%' + t, 'B': t + 'B', 'b': t + 'b', '0B': '0B' + t, '0b': '0b' + t}[form]
            J.append(finish(j, cpu, [L(' dl ' + t, num(cpu, value(ds, 2)))]))
    # several constants of one value written in every base, on one line
    j = job('all bases of one nibble string')
    a = digits(j, 3, b'01')
    v = value(a, 2)
    t = tx(a)
    v8, v10, v16 = value(a, 8), value(a, 10), value(a, 16)
    J.append(finish(j, '6800', [L(' dl %%%s,%sB,0B%s,%sQ,%s,$%s,%sH,0X%s' % ((t,) * 8), sum((order('6800', x) for x in (v, v, v, v8, v10, v16, v16, v16)), []))]))

    # ascii
    plain = bytes(c for c in PRINT if c not in b'\'"\\')
    esc = {'\\t': 9, '\\n': 10, '\\r': 13, '\\0': 0, "\\'": 39, '\\"': 34, '\\\\': 92}
    for n in range(1, 6):
        for q in '\'"':
            for p in range(n):
                if n == 5 and p not in (0, 4):
                    continue
                cpu = cpus[(n + p) % 3]
                j = job('ascii %s %d chars, pos %d' % ('single' if q == "'" else 'double', n, p))
                cs = [j.byte(plain if k == p else b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&*+') for k in range(n)]
                v = z3.BitVecVal(0, 64)
                for c in cs:
                    v = (v << 8) | z3.ZeroExt(56, c.bv)
                if n < 5:
                    J.append(finish(j, cpu, [L(' dl %s%s%s' % (q, tx(cs), q), order(cpu, v))], post=['; end']))
                else:
                    J.append(finish(j, cpu, [L(' dl %s%s%s' % (q, tx(cs), q), 'error')]))
    # the other quote, and escapes, at each place of a constant
    for n in range(1, 5):
        j = job('escapes in %d' % n)
        lines = []
        cs = [j.byte(b'abcdefghijklmnopqrstuvwxyz') for _ in range(n)]
        for p in range(n):
            for e, val in list(esc.items()) + [('other', None)]:
                for q in '\'"':
                    ee, vv = (e, val) if e != 'other' else (('"', 34) if q == "'" else ("'", 39))
                    w = [z3.BitVecVal(0, 8)] * (4 - n) + [c.bv for c in cs]
                    w[4 - n + p] = z3.BitVecVal(vv, 8)
                    body = ''.join(ee if k == p else c.text for k, c in enumerate(cs))
                    lines.append(L(' dl %s%s%s' % (q, body, q), w))
        J.append(finish(j, '6800', lines))
    # two escapes next to each other
    j = job('escape pairs')
    c = j.byte(b'abcdefghijklmnopqrstuvwxyz')
    lines = []
    for e, a in esc.items():
        for f, b in esc.items():
            for q in '\'"':
                lines.append(L(' dl %s%s%s%s%s' % (q, c.text, e, f, q), [0, c.bv, a, b]))
                lines.append(L(' dl %s%s%s%s%s' % (q, e, f, c.text, q), [0, a, b, c.bv]))
                lines.append(L(' dl %s%s%s%s%s' % (q, e, c.text, f, q), [0, a, c.bv, b]))
    J.append(finish(j, '6800', lines))
    # in an instruction, an expression, several on one line
    j = job('ascii in expressions')
    c, d = j.byte(b'abcdefghijklmnopqrstuvwxyz'), j.byte(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ')
    J.append(finish(j, '6502', [L(" lda #'%s'" % c.text, [0xA9, c.bv]), L(" lda #'%s'-80H" % c.text, [0xA9, c.bv - 0x80], warn=None), L(' ldx #"%s"+1 ; it\'s' % d.text, [0xA2, d.bv + 1]),
                                L(" db '%s','%s',\"%s\" , ';', ',', '('" % (c.text, d.text, c.text), [c.bv, d.bv, c.bv, 59, 44, 40]), L(" db ')','=','+'", [41, 61, 43])]))
    # malformed
    j = job('malformed')
    d = [j.byte(DEC) for _ in range(2)]
    w = j.byte(bytes(c for c in b'ACEFGIJKLMNOPRSTUVWYZacefgijklmnoprstuvwyz_'))
    g = j.byte(b'GIJKLMNOPRSTUVWYZgijklmnoprstuvwyz_')
    D = tx(d)
    lines = [L(' dl ' + t, 'error') for t in ('%s%s' % (D, w.text), '%s%s%s' % (d[0].text, w.text, d[1].text), '%s.%s' % (d[0].text, d[1].text), '$%s%s' % (D, g.text), '$%s%s' % (g.text, D),
                                             '0X%s%s' % (D, g.text), '%s%sH' % (D, g.text), '0.12', '$', '%', '%s %s' % (d[0].text, d[1].text), '$%s %s' % (d[0].text, d[1].text))]
    J.append(finish(j, '6502', lines))
    j = job('bad digits')
    o = j.byte(b'89')
    b = j.byte(b'23456789')
    x = j.byte(b'01')
    t = [o.text + 'Q', '1%sQ' % o.text, '%s7Q' % o.text, b.text + 'B', x.text + b.text + 'B', b.text + x.text + 'B', '%' + b.text, '%' + x.text + b.text, '%%%s%s' % (b.text, x.text), '0B' + b.text, '0B%s%s' % (x.text, b.text)]
    J.append(finish(j, '6502', [L(' dl ' + s, 'error') for s in t]))
    j = job('bad ascii')
    c = j.byte(b'abcdefghijklmnopqrstuvwxyz')
    e = j.byte(bytes(c for c in range(97, 123) if c not in b'tnr'))
    J.append(finish(j, '6502', [L(' dl ' + s, 'error') for s in ("'\\%s'" % e.text, "'%s\\%s'" % (c.text, e.text), "'%s'%s" % (c.text, c.text), '"%s"%s' % (c.text, c.text), "'%s\"" % c.text)]))
    # a name made of hexadecimal digits is a label
    j = job('hex-like label')
    a = [j.byte(b'CDEFcdef'), j.byte(DEC)]
    V = j.bits(8)
    J.append(finish(j, '6502', [' * = $1000', '%sh = %s' % (tx(a), V.text), L(' db %sH' % tx(a), [V.bv])]))
    return J
