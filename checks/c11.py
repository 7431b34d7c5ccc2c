"""C11: the name space of labels."""
import z3
import isa6502, isa6800, isaz80
from tmpl import *
from recs import Prog, b32
from asm import must_image, Listing
from world import series, bounds

BOUNDS = ('two names of equal length 2..36 which may differ (in letter or in case) at any one position, the characters there symbolic over letters, digits, period and underscore; names of 3 characters with all '
          'but the first symbolic; names which are prefixes of one another, lengths 1..36; names with a symbolic character which is none of a name at each position of lengths 1..8, '
          'names of more than 48 characters; every pseudo-mnemonic, mnemonic and register of the processors as a name, and before or behind the period of one; local labels with symbolic names, also beginning with digits, in 2..130 CODE/DUMMY sections, in macro calls, '
          'nested macro calls and both')
BOUNDS += bounds('C11')
OUTSIDE = 'names of 37 to 48 characters; labels defined before the CPU statement which are keywords of that CPU; sections started inside a macro'
PSEUDO = 'equ asc align clist code cpu db ddb dl dw dummy ds else endc endm exitm fail if ilist include list macro mlist nam page output skip'.split()
NAMEC = bytes(c for c in range(128) if chr(c).isalnum() or chr(c) in '._')
LETTERS = bytes(c for c in NAMEC if chr(c).isalpha())
BADC = bytes(c for c in range(33, 127) if c not in NAMEC and chr(c) not in ';=\'"')


def upper(c):
    return z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c)


def same(a, b):
    return z3.simplify(z3.And(*[upper(x) == upper(y) for x, y in zip(a, b)]))


def twonames(j, n1, n2, c1, c2, where=None):
    """n1, n2 spelled, c1, c2 the characters (bv8): either the same name, and the second definition is refused, or different labels"""
    va, vb = j.bits(8), j.bits(8)
    src = ' cpu 6800\n * = $100\n%s = %s\n dw %s\n%s db %s\n dw %s,%s\n' % (n1, va, n1, n2, vb, n1, n2)
    eq = same(c1, c2) if len(c1) == len(c2) else z3.BoolVal(False)
    def orc(job, path):
        r = path.runs[0]
        ls = Listing(r.listing)
        e = split(path, eq)
        if e:
            row = ls.row(5)
            if row is None or not row.errors:
                path.fail('the second definition of the label is accepted')
            elif r.has('o.hex'):
                path.fail('code file in spite of an error')
            return
        if ls.errors:
            path.fail('refused: %s' % (ls.errors[0],)); return
        if not r.has('o.hex'):
            path.fail('no code file'); return
        must_image(path, r.file('o.hex'), [(0x100 + i, b) for i, b in enumerate([0, va.bv, vb.bv, 0, va.bv, 1, 2])])
    j.oracle = orc
    j.add(src)
    return j


def bvs(s):
    return [z3.BitVecVal(ord(c), 8) for c in s]


def jobs(tier):
    J = []
    base = 'qLongestNameOfLabels_With.36.Charact'
    assert len(base) == 36
    for n in (2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 35, 36):
        ps = range(1, n)
        if tier == 'quick' and n > 8:
            ps = sorted({1, n // 2, n - 2, n - 1})
        for p in ps:
            j = job('names of %d characters, at %d' % (n, p), maxpaths=300)
            a, b = j.byte(NAMEC), j.byte(NAMEC)
            pre, post = base[:p], base[p + 1:n]
            if n == 2:
                pre = 'z'
            J.append(twonames(j, pre + a.text + post, pre + b.text + post.swapcase(), bvs(pre) + [a.bv] + bvs(post), bvs(pre) + [b.bv] + bvs(post.swapcase())))
    for p in ('qq', '_', 'x.', 'zz9_'):
        j = job('names %s??' % p, maxpaths=600, maxtime=80)
        a = [j.byte(b'aAbB0_.' if p != 'qq' else b'aAzZ09_.') for _ in range(4)]
        J.append(twonames(j, p + tx(a[:2]), p + tx(a[2:]), bvs(p) + [x.bv for x in a[:2]], bvs(p) + [x.bv for x in a[2:]]))
    j = job('first characters', maxpaths=600)
    a, b = j.byte(LETTERS + b'_'), j.byte(LETTERS + b'_')
    J.append(twonames(j, a.text + 'q_q', b.text + 'Q_Q', [a.bv] + bvs('q_q'), [b.bv] + bvs('Q_Q')))
    for n in range(1, 36) if tier == 'thorough' else (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 30, 31, 32, 34, 35):
        j = job('prefix of %d characters' % n)
        c = j.byte(NAMEC)
        J.append(twonames(j, base[:n] if n > 1 else 'q', (base[:n] if n > 1 else 'q') + c.text, bvs('x' * n), bvs('x' * (n + 1))))
    # malformed
    for n in (1, 2, 3, 5, 8):
        for p in range(n):
            j = job('bad character at %d of %d' % (p, n), maxpaths=200)
            c = j.byte(BADC if p else bytes(x for x in BADC if x not in b'*') + b'0123456789')
            nm = base[:p] + c.text + base[p + 1:n]
            lines = [L(nm, 'error'), L('%s = 1' % nm, 'error'), L('%s equ 1' % nm, 'error'), L('%s db 1' % nm, 'error'), L('%s nop' % nm, 'error'), L('%s macro' % nm, 'error')]
            J.append(finish(j, '6800', lines))
    for n in (49, 50, 60, 100):
        j = job('name of %d characters' % n)
        v = j.bits(4)
        nm = (base + base + base)[:n]
        J.append(finish(j, '6800', [L(nm, 'error'), L('%s = %s' % (nm, v), 'error'), L('%s db 1' % nm, 'error'), L('%s equ 1' % nm, 'error')]))
    # keywords
    for cpu, mn, regs in (('6502', sorted(isa6502.table('6502')), ['a', 'x', 'y']), ('65C02', sorted(isa6502.table('65C02')), ['a', 'x', 'y']), ('6800', sorted(isa6800.table('6800')), []),
                          ('6801', sorted(isa6800.table('6801')), []), ('z80', sorted(isaz80.SIMPLE) + sorted(isaz80.ALU) + sorted(isaz80.ROT) + sorted(isaz80.BITS) + ['ld', 'jp', 'jr', 'call', 'push', 'pop', 'djnz', 'rst', 'in', 'out', 'ex', 'inc', 'dec', 'im'],
                           ['a', 'b', 'c', 'd', 'e', 'h', 'l', 'i', 'r', 'bc', 'de', 'hl', 'sp', 'af', 'ix', 'iy'])):
        for k, ch in enumerate(chunks(mn + PSEUDO + regs, 45)):
            j = job('%s keywords #%d' % (cpu, k))
            v = j.bits(4)
            lines = []
            for m in ch:
                lines += [L('%s = %s' % (m, v), 'error')] + ([L('%s equ %s' % (m.upper(), v), 'error')] if m != 'nam' else [])
                if m not in regs and m not in ('if', 'else', 'endc', 'macro', 'endm', 'exitm', 'include', 'fail'):
                    lines.append(L(' db %s' % m, 'error'))
                elif m in regs:
                    lines.append(L('%s db 1' % m, 'error'))
            J.append(finish(j, cpu, lines))
            # a keyword, a period and more is a name like any other
            j = job('%s keywords with a period #%d' % (cpu, k))
            v = j.bits(8)
            lines, post = [], []
            for q, m in enumerate(ch):
                a, b, c = '%s.%s' % (m, 'bwx1'[q % 4]), '%s._' % m.upper(), '%s.%s' % (m, ch[q - 1])
                lines += [L('%s db %s' % (a, v), [v.bv]), L('%s = %s' % (b, v), []), L(' db %s' % b.lower(), [v.bv]), L(' db %s.q' % m, [v.bv]), L('%s\tequ 5' % c.upper(), []), L(' db %s' % c, [5])]
                post += [L('%s.Q equ %s' % (m, v), [])]
            J.append(finish(j, cpu, lines, post=post))
    # names of one processor are free on another
    for cpu, free in (('6502', 'ldaa djnz hl bc ix b ld'), ('6800', 'ldx1 y djnz hl bc ld'), ('z80', 'lda ldaa x y bra jmp jsr')):
        j = job('%s free names' % cpu)
        v = j.bits(8)
        lines = []
        for n in free.split():
            lines += ['%s = %s' % (n, v), L(' db %s+0' % n.upper(), [v.bv]), L('%s.%s db %s' % (n, n, n), [v.bv])]
        J.append(finish(j, cpu, lines))
    # local labels
    for kind in ('code', 'dummy'):
        j = job('local names in %s' % kind, maxpaths=300)
        a, b = j.byte(NAMEC), j.byte(NAMEC)
        va, vb = j.bits(7), j.bits(7)
        A, B = z3.ZeroExt(1, va.bv), z3.ZeroExt(1, vb.bv)
        src = ' cpu 6800\n * = $100\n .%s=0\n' if False else ' cpu 6800\n * = $100\n %s\n.%s = %s\n code\n.%s = %s\n db .%s\n %s\n code\n db .%s\n' % (kind, a, va, b, vb, b, kind, b)
        eq = upper(a.bv) == upper(b.bv)
        def orc(job, path, a=a, b=b, A=A, B=B):
            ls = Listing(path.runs[0].listing)
            if [e[0] for e in ls.errors] != [10]:
                path.fail('a local label of another section must be undefined, and nothing else wrong: %s' % (ls.errors,)); return
            bs, ok = ls.row(7).bytes()
            path.must(z3.simplify(bs[0] == B) if len(bs) == 1 else False, 'value of the local label')
        j.oracle = orc
        j.add(src)
        J.append(j)
    j = job('two local names in one section', maxpaths=300)
    a, b = j.byte(NAMEC), j.byte(NAMEC)
    J.append(twonames(j, '.l' + a.text, '.L' + b.text, bvs('.l') + [a.bv], bvs('.L') + [b.bv]))
    j = job('local and global names', maxpaths=300)
    a, b = j.byte(NAMEC), j.byte(NAMEC)
    J.append(twonames(j, 'l' + a.text, '.L' + b.text, bvs('xx'), bvs('xxx')))
    for n in (3, 12, 130):
        j = job('%d sections' % n, maxpaths=100, maxinst=200_000_000)
        v = j.bits(8)
        p = Prog(j, 'SCODE', '6800')
        p.raw('g = %s' % v).org('$1000', 0x1000)
        V = z3.ZeroExt(8, v.bv)
        pc = 0x1000
        def h(x):
            return [hi(x), lo(x)]
        for k in range(n):
            # forward, backward and numeric-looking names, alternately one and two labels
            p.raw(' dw .1,.loc,.e', h(z3.BitVecVal(pc + 6, 16)) + h(V + k) + h(z3.BitVecVal(pc + 7, 16)))
            p.raw('.1 db %d' % (k & 255), [k & 255]).raw('.e dw .1,.LOC', h(z3.BitVecVal(pc + 6, 16)) + h(V + k)).raw('.loc = g+%d' % k)
            p.raw('glob%d dw .loc' % k, h(V + k))
            pc += 13
            p.raw(' code' if k % 3 else ' dummy')
            if k % 3 == 0:
                p.raw('.1 ds 3').raw('.loc ds 2').raw(' dw .1').raw(' code').raw(' * = glob%d+2' % k)
        for k in (0, 1, n - 1):
            p.raw(' dw glob%d' % k, h(z3.BitVecVal(0x1000 + 13 * k + 11, 16)))
        J.append(p.done())
    # local names which begin with digits or periods, in sections whose numbers end or begin with those digits
    for n in (13, 23) + ((112,) if tier == 'thorough' else ()):
        j = job('digits first in %d sections' % n, maxpaths=400, maxinst=400_000_000)
        v, c = j.bits(8), j.byte(b'0123456789aA._')
        p = Prog(j, 'SCODE', '6800')
        p.raw('g = %s' % v).org('$1000', 0x1000)
        names = ['.a', '.1a', '.2a', '.11a', '.1', '.11', '.0', '.1.a', '..a', '.1..a', '.0a', '.%sz' % c, '.1%sy' % c]
        for k in range(n):
            for i, nm in enumerate(names):
                p.raw(' db %s' % nm, [v.bv + ((k * 16 + i) & 255)])
                p.raw('%s = LO(g+%d)' % (nm, k * 16 + i))
            p.raw(' code' if k % 4 else ' dummy')
            if k % 4 == 0:
                for nm in names[::2]:
                    p.raw('%s = 77' % nm)
                p.raw(' code')
        J.append(p.done())
    # macros
    j = job('locals in macros', maxpaths=100)
    a, b = j.bits(8), j.bits(8)
    p = Prog(j, 'SCODE', '6800')
    p.raw('m1 macro').raw(' db .l').raw('.l = \\1').raw(' db .l').raw(' endm')
    p.raw('m2 macro').raw(' dw .here').raw('.here m1 \\1+1').raw(' m1 \\1').raw(' dw .here').raw(' endm')
    p.raw('m3 macro').raw('.x db \\1').raw(' m2 \\1').raw(' dw .x').raw(' endm')
    p.org('$100', 0x100)
    p.raw('.l = %s' % b).raw(' db .l', [b.bv])
    def m1(v): return [v, v]
    p.raw(' m1 %s' % a, m1(a.bv)).raw(' db .l', [b.bv]).raw(' m1 %s' % b, m1(b.bv))
    def m2(v):
        x = z3.Extract(15, 0, p.pc + 2)
        return [hi(x), lo(x)] + m1(v + 1) + m1(v) + [hi(x), lo(x)]
    p.raw(' m2 %s' % a, m2(a.bv)).raw('.here = 5').raw(' db .here,.l', [5, b.bv])
    x = z3.Extract(15, 0, p.pc)
    p.pc = p.pc + 1
    body = m2(b.bv)
    p.pc = p.pc - 1
    p.raw(' m3 %s' % b, [b.bv] + body + [hi(x), lo(x)]).raw(' code').raw(' m1 7', [7, 7]).raw('.l db .l-*,1', [0, 1])
    J.append(p.done())
    j = job('locals of macros stay inside')
    v = j.bits(8)
    J.append(finish(j, '6800', ['.o = 9', ' m1 %s' % v, L(' db .l', 'error'), ' m1 %s' % v, L(' db .l', 'error'), L(' db .o', None), ' m2', L(' code', None), L(' db .o', 'error'), ' code', L('.o db 1', None), L('.o db 1', 'error')],
                    pre=['m1 macro', '.l db \\1', ' endm', 'm2 macro', ' db .o', '.o = 4', ' endm']))
    for n in (20, 150):
        j = job('%d macro calls' % n, maxinst=200_000_000)
        v = j.bits(8)
        p = Prog(j, 'SCODE', '6800')
        p.raw('m macro').raw(' dw .f').raw('.b db \\1').raw('.f dw .b').raw(' endm').raw('g = %s' % v).org('$2000', 0x2000)
        for k in range(n):
            x = 0x2000 + 5 * k
            p.raw(' m g+%d' % k, [x + 3 >> 8, x + 3 & 255, v.bv + k, x + 2 >> 8, x + 2 & 255])
            p.lines[-1] = ' m g+%d&255' % k if False else ' m LO(g+%d)' % k
        J.append(p.done())
    # one local name in a great many sections and calls
    for kind in ('code', 'dummy', 'call', 'mixed'):
        n = 1100 if tier == 'quick' else 3000
        j = job('%d times %s' % (n, kind), maxinst=1_500_000_000)
        v = j.bits(8)
        p = Prog(j, 'SCODE', '6800')
        p.raw('m macro').raw(' db .f').raw('.f = \\1').raw(' endm').raw('g = %s' % v).org('$2000', 0x2000)
        p.raw('.f db g', [v.bv])
        for k in range(n):
            w = kind if kind != 'mixed' else ('code', 'dummy', 'call')[k % 3]
            if w == 'call':
                p.raw(' m LO(g+%d)' % k, [v.bv + (k & 255)])
            else:
                p.raw(' code') if w == 'code' else p.raw(' dummy').raw('.f db .f').raw(' code').raw(' * = *-1')
                p.raw('.f db LO(g+%d)' % k, [v.bv + (k & 255)])
        p.raw(' dw .f', [0x20, 0] if kind == 'call' else [p.pc.as_long() - 1 >> 8 & 255, p.pc.as_long() - 1 & 255]) if kind != 'mixed' else None
        J.append(p.done())
    if tier == 'thorough':
        j = job('70000 sections', maxinst=6_000_000_000)
        v = j.bits(8)
        p = Prog(j, 'SCODE', '6800')
        p.raw('g = %s' % v).org('$2000', 0x2000).raw('.f db g', [v.bv])
        for k in range(70000):
            p.raw(' code')
            if k in (254, 255, 256, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 69999):
                p.raw('.f db LO(g+%d)' % k, [v.bv + (k & 255)])
        J.append(p.done())
    J += series('C11', tier)
    return J
