"""C03: Z80 instruction encoding."""
import z3, isaz80
from isaz80 import encode
from tmpl import *

BOUNDS = ('every documented Z80 instruction, with every operand pair out of the 8-bit, special and 16-bit registers, (hl) (bc) (de) (sp) (c), (ix) (iy), (ix+d), (iy-d), '
          '(nn), nn: 8-bit numbers, 16-bit numbers, displacements 0..127 and -128..0, bit numbers symbolic, RST vectors and IM modes symbolic up to 32 bits and negative, numbers written as binary constant, label, '
          'forward label or expression; every operand combination the processor lacks must be refused; conditions an instruction does not know; good and refused lines in any order; every bare mnemonic of 2 to 4 letters')
OUTSIDE = 'IXH/IXL and other undocumented instructions; numbers of more than 16 bits; relative jumps (C04)'
KF_CPDR = 'z80-cpdr'


def universe(n, d):
    """(text, operand) pairs; n, d: (text, value)"""
    u = [(r, ('r', r)) for r in 'abcdehlirf']
    u += [(r, ('rr', r)) for r in ('bc', 'de', 'hl', 'sp', 'ix', 'iy', 'af')]
    u += [('(%s)' % r, ('ind', r)) for r in ('hl', 'bc', 'de', 'sp', 'c')]
    u += [('(ix)', ('idx', 'ix', None)), ('(iy)', ('idx', 'iy', None)), ('(ix+%s)' % d[0], ('idx', 'ix', d[1])), ('(iy-%s)' % d[0], ('idx', 'iy', -d[1])),
          ('(iy+%s)' % d[0], ('idx', 'iy', d[1])), ('(ix-%s)' % d[0], ('idx', 'ix', -d[1]))]
    u += [(n[0], ('n', n[1])), ('(%s)' % n[0], ('mem', n[1]))]
    return u


def fixidx(b):
    return [0 if x is None else x for x in b]


def all_lines(n, d, bitno, extra=False):
    """[(text, encoding or None, warn)]"""
    u = universe(n, d)
    r = []
    def add(m, ops, warn=False):
        o = [x[1] for x in ops]
        e = encode(m, o)
        r.append((' %s %s' % (m, ','.join(x[0] for x in ops)), None if e is None else fixidx(e), warn))
    for m in ('ld', 'add', 'adc', 'sbc', 'ex', 'in', 'out'):
        for a in u:
            for b in u:
                if m == 'ex' and (a[0].startswith('(sp') or b[0].startswith('(sp')) and False:
                    continue
                add(m, [a, b])
    af1 = ("af'", ('rr', "af'"))
    af = ('af', ('rr', 'af'))
    add('ex', [af, af1])
    for m in ('sub', 'and', 'or', 'xor', 'cp'):
        for b in u:
            add(m, [b])
            add(m, [('a', ('r', 'a')), b], warn=None)
        for a in u:
            if a[0] != 'a':
                add(m, [a, ('b', ('r', 'b'))])
    for m in ('inc', 'dec', 'push', 'pop') + tuple(isaz80.ROT):
        for a in u:
            add(m, [a])
    for m in isaz80.BITS:
        for b in u:
            add(m, [(bitno[0], ('bitno', bitno[1])), b])
            add(m, [b, ('a', ('r', 'a'))]) if b[1][0] not in ('n', 'mem') else None
    for m in ('jp', 'call'):
        for a in u:
            if m == 'jp' or a[1][0] != 'mem':       # call (nn) is call nn, with a warning
                add(m, [a])
        for c in isaz80.CC:
            add(m, [(c, ('cc', c)), (n[0], ('n', n[1]))])
    for c in isaz80.CC:
        add('ret', [(c, ('cc', c))])
    for a in u:
        if a[0] != 'c':
            add('ret', [a])
    for m in isaz80.SIMPLE:
        if m == 'cpdr':
            continue
        r.append((' ' + m, isaz80.SIMPLE[m], False))
        if m != 'ret':
            add(m, [u[0]])
            add(m, [(n[0], ('n', n[1]))])
    for m in ('ld', 'add', 'ex', 'in', 'and', 'inc', 'push', 'rl', 'bit', 'jp', 'call', 'im', 'rst'):
        r.append((' ' + m, None, False))
    return r


def jobs(tier):
    J = []
    for style in ('bin', 'label', 'forward', 'expr') + (('hex',) if tier == 'thorough' else ()):
        for width in (8, 16):
            j = job('%s %d-bit' % (style, width))
            tx, v, pre, post = operand(j, style, width)
            D = j.bits(7)
            B = j.bits(3)
            nv = z3.ZeroExt(8, v) if width == 8 else v
            lines = []
            for t, e, w in all_lines((tx, nv), (D.text, z3.ZeroExt(1, D.bv)), (B.text, z3.ZeroExt(5, B.bv))):
                if e is None:
                    continue
                if width == 16:
                    # only the instructions which take a 16-bit number
                    if not any(z3.is_expr(x) and z3.eq(x, isaz80.hi(nv)) for x in e):
                        continue
                lines.append(L(t, e, warn=w))
            J.append(finish(j, 'z80', lines, pre, post))
    j = job('refused')
    V, D, B = j.bits(8), j.bits(7), j.bits(3)
    bad = [t for t, e, w in all_lines((V.text, z3.ZeroExt(8, V.bv)), (D.text, z3.ZeroExt(1, D.bv)), (B.text, z3.ZeroExt(5, B.bv))) if e is None]
    for k, ch in enumerate(chunks(bad, 600)):
        j = job('refused %d' % k)
        j.bits(8), j.bits(7), j.bits(3)
        J.append(finish(j, 'z80', [L(t, 'error') for t in ch]))
    # relative jumps know four conditions only, and no instruction any other
    j = job('conditions')
    V = j.bits(8)
    names = ['nz', 'z', 'nc', 'c', 'po', 'pe', 'p', 'm', 'zn', 'cn', 'nn', 'o', 'e', 'op', 'ep', 'np', 'nm', 's', 'ns', 'v', 'eq', 'ne', 'nzz', 'zz', 'cc', 'mm', 'pp', 'poo', 'n', '1', '(c)', '(z)', "'c'", '']
    lines = []
    for c in names:
        for m in ('jr', 'jp', 'call'):
            if m == 'jr' and c in ('nz', 'z', 'nc', 'c') or m != 'jr' and c in isaz80.CC:
                continue
            lines += [L(' %s %s,*+%s' % (m, c, k), 'error') for k in (2, '(%s&63)' % V)]
        for t in (' djnz %s,*', ' ret %s,1', ' jp %s,hl', ' jp %s,(hl)', ' call %s,hl', ' jr %s,hl'):
            lines.append(L(t % c, 'error'))
        if c not in isaz80.CC and c:
            lines.append(L(' ret ' + c, 'error'))
    J.append(finish(j, 'z80', lines))
    # bit numbers above 7
    j = job('bit number')
    V, D = j.bits(8), j.bits(7)
    lines = []
    for m in isaz80.BITS:
        for t, o in universe((V.text, None), (D.text, z3.ZeroExt(1, D.bv)))[:30]:
            if isaz80.m8(o):
                e = fixidx(encode(m, [('bitno', V.bv), o]))
                lines.append(L(' %s %s,%s' % (m, V.text, t), lambda path, e=e, V=V: e if path.split(z3.ULT(V.bv, 8)) else 'error'))
    J.append(finish(j, 'z80', lines))
    # instructions and refused ones in any order: no line depends on the ones before
    import random
    for k in range(4 if tier == 'quick' else 20):
        j = job('mixed %d' % k)
        V, D, B = j.bits(16 if k % 2 else 8), j.bits(7), j.bits(3)
        nv = V.bv if k % 2 else z3.ZeroExt(8, V.bv)
        rnd = random.Random(k)
        x = all_lines((V.text, nv), (D.text, z3.ZeroExt(1, D.bv)), (B.text, z3.ZeroExt(5, B.bv)))
        good, bad = [q for q in x if q[1] is not None and (not k % 2 or len(q[1]) < 3 or any(z3.is_expr(y) and z3.eq(y, isaz80.hi(nv)) for y in q[1]) or not any(z3.is_expr(y) and z3.eq(y, isaz80.lo(nv)) for y in q[1]))], [q for q in x if q[1] is None]
        lines = [L(t, e, warn=None if k % 2 else w) for t, e, w in rnd.sample(good, 160)] + [L(t, 'error') for t, e, w in rnd.sample(bad, 130)]
        rnd.shuffle(lines)
        J.append(finish(j, 'z80', lines))
    # RST vectors and interrupt modes
    j = job('rst')
    V = j.bits(8)
    v = V.bv
    def rst(path, v=v):
        if path.split(z3.ULT(v, 8)):
            return [0xC7 + 8 * v]
        if path.split(z3.And(v & 7 == 0, z3.ULT(v, 64))):
            return [0xC7 + v]
        return 'error'
    J.append(finish(j, 'z80', [L(' rst ' + V.text, rst)]))
    j = job('im')
    V = j.bits(8)
    w = V.bv
    def im(path, w=w):
        for k, b in enumerate((0x46, 0x56, 0x5E)):
            if path.split(w == k):
                return [0xED, b]
        return 'error'
    J.append(finish(j, 'z80', [L(' im ' + V.text, im)]))
    # RST vectors and interrupt modes of up to 32 bits and negative, bit numbers
    for m in ('rst', 'im'):
        for k in range(5):
            j = job('wide %s #%d' % (m, k), maxpaths=300)
            H, V = j.bits(4), j.bits(6)
            x, h = z3.ZeroExt(26, V.bv), z3.ZeroExt(28, H.bv)
            t, w = (('%s<<8|%s' % (H, V), h << 8 | x), ('$10000*%s+%s' % (H, V), (h << 16) + x), ('$80000000|%s<<24|%s' % (H, V), z3.BitVecVal(1 << 31, 32) | h << 24 | x),
                    ('%s<<12|%s' % (H, V), h << 12 | x), ('-%s' % V, 0 - x))[k]
            def vec(path, m=m, w=w):
                if m == 'im':
                    for k, b in enumerate((0x46, 0x56, 0x5E)):
                        if path.split(w == k):
                            return [0xED, b]
                elif path.split(z3.ULT(w, 8)):
                    return [0xC7 + 8 * z3.Extract(7, 0, w)]
                elif path.split(z3.And(w & 7 == 0, z3.ULT(w, 64))):
                    return [0xC7 + z3.Extract(7, 0, w)]
                return 'error'
            J.append(finish(j, 'z80', [L(' %s %s' % (m, t), vec)]))
    for s in (3, 8, 16, 27):
        j = job('wide bit numbers %d' % s, maxpaths=300)
        H, V = j.bits(5), j.bits(3)
        v8 = z3.ZeroExt(5, V.bv)
        def two(job, path, H=H, V=V, v8=v8):
            ls = Listing(path.runs[0].listing)
            z = path.split(H.bv == 0)
            for n, b in ((3, 0x40), (4, 0x80), (5, 0xC0)):
                row = ls.row(n)
                if z:
                    bs, ok = row.bytes()
                    if row.errors or len(bs) != 2:
                        path.fail('line %d is refused' % n); return
                    path.must(z3.And(bs[0] == 0xCB, bs[1] == b + 8 * v8), 'code of line %d' % n)
                elif not row.errors:
                    path.fail('line %d is not refused' % n)
        j.oracle = two
        j.add(' cpu z80\n * = 0\n bit %s<<%d|%s,b\n res %s<<%d|%s,b\n set %s<<%d|%s,b\n' % ((H, s, V) * 3))
        J.append(j)
    # cpdr: listed finding
    j = job('cpdr')
    def orc(job, path):
        row = Listing(path.runs[0].listing).row(3)
        b, ok = row.bytes()
        path.must(z3.And(b[0] == 0xED, b[1] == 0xB9) if len(b) == 2 else False, 'cpdr is ED B9', finding=KF_CPDR, when=z3.And(b[0] == 0xED, b[1] == 0x89) if len(b) == 2 else z3.BoolVal(False))
    j.oracle = orc
    j.add(' cpu z80\n * = $1000\n cpdr\n')
    J.append(j)
    for n in (2, 3, 4):
        for f in ('abcdefgh', 'ijklmnopq', 'rstuvwxyz'):
            j = anymnemonic('z80', n, {m: b for m, b in isaz80.SIMPLE.items() if m != 'cpdr'}, f)
            if n == 4 and f[0] == 'a':
                cs = list(range(4))
                orc0 = j.oracle
                w4 = z3.Concat(*[j.vars[k].bv for k in range(4)])
                def orc1(job, path, orc0=orc0, w4=w4):
                    if path.feasible(w4 == int.from_bytes(b'cpdr', 'big')):
                        return          # judged by the job 'cpdr'
                    orc0(job, path)
                j.oracle = orc1
            J.append(j)
    return J
