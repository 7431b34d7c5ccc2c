"""Programs whose code file is examined: shared by C08 (Intel HEX) and C09 (S-records)."""
import z3
from tmpl import *
from asm import must_image, Listing

MAXREC = 16


def add(x, k):
    return z3.simplify(x + k)


def b32(x):
    return z3.BitVecVal(x, 32) if isinstance(x, int) else z3.ZeroExt(32 - x.size(), x) if x.size() < 32 else x


class Prog:
    """builds a program and the bytes it must give"""
    def __init__(self, j, fmt, cpu):
        self.j, self.fmt, self.cpu = j, fmt, cpu
        self.lines, self.want, self.pc = [], [], None
        if cpu:
            self.lines.append(' cpu ' + cpu)
            default = 'HEX' if cpu == 'z80' else 'SCODE'
        else:
            default = 'SCODE'
        if fmt != default:
            self.lines.append(' output ' + fmt)

    def org(self, text, val):
        self.lines.append(' * = ' + text)
        self.pc = b32(val)
        return self

    def db(self, items):
        """items: [(text, byte)]"""
        for k in range(0, len(items), 12):
            self.lines.append(' db ' + ','.join(t for t, v in items[k:k + 12]))
        for t, v in items:
            self.put(v)
        return self

    def put(self, v):
        self.want.append((self.pc, v))
        self.pc = add(self.pc, 1)

    def raw(self, text, bytes=()):
        self.lines.append(text)
        for v in bytes:
            self.put(v)
        return self

    def done(self):
        want, fmt = self.want, self.fmt
        def orc(job, path):
            r = path.runs[0]
            if not r.has('o.hex'):
                path.fail('no code file'); return
            first = ':' if fmt == 'HEX' else 'S'
            if not r.file('o.hex').shape.startswith(first):
                path.fail('the code file is not in format ' + fmt); return
            must_image(path, r.file('o.hex'), want, cross=True)
        self.j.oracle = orc
        self.j.add(''.join(l + '\n' for l in self.lines))
        return self.j


def data(j, n, sym=4, bits=8):
    """n bytes, every `sym`-th symbolic"""
    out = []
    syms = [j.bits(bits) for _ in range(min(4, n))]
    for k in range(n):
        if k % sym == 0:
            s = syms[(k // sym) % len(syms)]
            out.append((s.text, s.bv))
        else:
            out.append(('%d' % (k * 37 & 255), k * 37 & 255))
    return out


def jobs_for(fmt, tier):
    J = []
    cpus = ('6502', '6800', 'z80', None)
    # one block, origin anywhere
    for cpu in cpus:
        for n in (1, 2, 15, 16, 17, 31, 32, 33, 40) + ((64, 100, 255) if tier == 'thorough' else ()):
            if tier == 'quick' and cpu in ('6502', None) and n not in (1, 16, 17, 40):
                continue
            j = job('%s block of %d' % (cpu, n), maxpaths=900, maxtime=200)
            o = j.bits(16)
            J.append(Prog(j, fmt, cpu).org(o.text, o.bv).db(data(j, n)).done())
    for n in (1, 16, 17, 33) if tier == 'thorough' else (1, 16, 17):
        for pfx in ('%0', '%1'):
            j = job('32-bit origin %s block of %d' % (pfx, n), maxpaths=900, maxtime=200)
            o = j.bits(31, prefix=pfx)
            v = z3.ZeroExt(1, o.bv) if pfx == '%0' else z3.Concat(z3.BitVecVal(1, 1), o.bv)
            if pfx == '%1':      # stay below the end of 32 bits
                j = job('32-bit origin %s block of %d' % (pfx, n), maxpaths=900, maxtime=200)
                o = j.bits(30, prefix=pfx + '0')
                v = z3.Concat(z3.BitVecVal(2, 2), o.bv)
            J.append(Prog(j, fmt, None).org(o.text, v).db(data(j, n, 8)).done())
    # two and three blocks
    for n, m in ((1, 1), (3, 2), (16, 1), (16, 16), (20, 5), (5, 20), (15, 2)):
        for w in (16, 24):
            if w == 24 and n not in (1, 20) or w == 24 and n == 20 and tier == 'quick':
                continue
            j = job('blocks of %d and %d, %d bits' % (n, m, w), maxpaths=1500, maxtime=250)
            a, b = j.bits(w), j.bits(w)
            J.append(Prog(j, fmt, 'z80' if w == 16 else None).org(a.text, a.bv).db(data(j, n, 3)).org(b.text, b.bv).db(data(j, m, 3)).done())
    j = job('three banks', maxpaths=1500, maxtime=250)
    h = [j.bits(3) for _ in range(3)]
    p = Prog(j, fmt, None)
    for k, x in enumerate(h):
        p.org('%s*$10000+%d' % (x, 0xfffe), z3.Concat(z3.BitVecVal(0, 13), x.bv, z3.BitVecVal(0xfffe, 16))).db(data(j, 4, 2))
    J.append(p.done())
    j = job('three 16-bit banks', maxpaths=1500, maxtime=250)
    p = Prog(j, fmt, None)
    for k, n in enumerate((16, 16, 15)):
        x = j.bits(n)
        p.org('%s<<16|%d' % (x, 16 * k + 7), z3.Concat(z3.ZeroExt(16 - n, x.bv), z3.BitVecVal(16 * k + 7, 16))).db(data(j, 2, 2))
    J.append(p.done())
    # relative placement: back, same, gap
    for d in (-40, -17, -16, -2, -1, 0, 1, 2, 15, 16):
        j = job('second block displaced by %d' % d, maxpaths=400)
        o = j.bits(14, prefix='%01')
        base = z3.Concat(z3.BitVecVal(1, 2), o.bv)
        p = Prog(j, fmt, '6800').org(o.text, base).db(data(j, 20))
        p.raw(' * = *%+d' % d)
        p.pc = add(p.pc, d)
        J.append(p.db(data(j, 18)).db(data(j, 3)).done())
    # the 64K boundary met by instructions, words, strings, blocks of DS
    for k in range(0, 18):
        for bank in (1, 2, 256):
            if bank != 1 and k not in (0, 1, 7, 16):
                continue
            j = job('%d bytes before bank %d' % (k, bank))
            a, w = j.bits(8), j.bits(16)
            org = bank * 65536 - k
            p = Prog(j, fmt, None).org('$%x' % org, org)
            p.raw(' db ' + a.text, [a.bv]).raw(' dw ' + w.text, [hi(w.bv), lo(w.bv)]).raw(' asc "ABCDEFGHIJ"', b'ABCDEFGHIJ').raw(' ds 9,' + a.text, [a.bv] * 9).raw(' dl ' + w.text, [0, 0, hi(w.bv), lo(w.bv)])
            J.append(p.done())
    # a longer program: instructions, gaps, dummy parts, macros, includes, conditionals in between
    for cpu, two in (('6502', 'ldx #'), ('6800', 'ldaa #'), ('z80', 'ld a,')):
        op = {'6502': 0xA2, '6800': 0x86, 'z80': 0x3E}[cpu]
        j = job('%s program' % cpu, maxpaths=400)
        a, b, g = j.bits(8), j.bits(8), j.bits(5)
        p = Prog(j, fmt, cpu)
        p.raw('mac macro').raw(' db \\1').raw(' %s\\1' % two).raw(' endm')
        p.org('$200', 0x200)
        for k in range(9):
            p.raw(' %s%s' % (two, a), [op, a.bv])
        p.raw(' mac ' + b.text, [b.bv, op, b.bv])
        p.raw(' if 1').raw(' db 5', [5]).raw(' else').raw(' db 6').raw(' endc')
        p.raw(' * = *+' + g.text)
        p.pc = add(p.pc, b32(g.bv))
        p.raw('lab db %s' % a, [a.bv])
        here = p.pc
        p.raw(' dummy').org('$10', 0x10).raw(' db 1,2,3').raw('d2 ds 7').raw(' code')
        p.raw(' * = lab+1')
        p.pc = here
        p.raw(' db d2', [0x13])
        for k in range(20):
            p.raw(' db %s' % b, [b.bv])
        J.append(p.done())
    # bytes which need care: every value in data, in each position of a record
    j = job('sums', maxpaths=100)
    a = [j.bits(8) for _ in range(16)]
    J.append(Prog(j, fmt, 'z80').org('$fff0', 0xfff0).db([(x.text, x.bv) for x in a]).done())
    # OUTPUT: spelling, overriding the default, unknown formats
    for cpu in cpus:
        for t in (fmt, fmt.lower(), fmt[0] + fmt[1:].lower()):
            j = job('output %s %s' % (cpu, t))
            v = j.bits(8)
            p = Prog(j, fmt, cpu)
            p.lines = ([' cpu ' + cpu] if cpu else []) + [' output  ' + t]
            J.append(p.org('$1234', 0x1234).db([(v.text, v.bv)]).done())
    j = job('output malformed')
    v = j.bits(8)
    def orc(job, path):
        ls = Listing(path.runs[0].listing)
        for n in (2, 3, 4):
            r = ls.row(n)
            if r is None or not r.errors:
                path.fail('OUTPUT of an unknown format accepted')
        if path.runs[0].has('o.hex'):
            path.fail('code file in spite of errors')
    j.oracle = orc
    j.add(' cpu 6502\n output\n output foo\n output %sx\n * = $1000\n db %s\n' % (fmt, v))
    J.append(j)
    return J
