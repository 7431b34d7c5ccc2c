"""C20: the program counter - assignments to *, CODE and DUMMY."""
import random, z3
from tmpl import *
from asm import Listing, must_image
from world import series, bounds

BOUNDS = ('random programs of 20 to 60 parts: data, DS, ALIGN and instructions of each CPU, labels, `*` set to symbolic 16-bit (one of 32-bit) values, to labels before and after their definition, to itself plus or minus symbolic distances, rounded; '
          'CODE and DUMMY at any place, also within macros, included files and under symbolic conditions; up to 70000 bytes of code; lines refused after 0..8 of their bytes; every kind of code before the first assignment to *')
BOUNDS += bounds('C20')
OUTSIDE = 'counters which pass 2^32; overlapping blocks beyond their order in the code file'
B32 = lambda x: z3.BitVecVal(x & 0xffffffff, 32)


def ext(b):
    return z3.ZeroExt(32 - b.size(), b) if b.size() < 32 else b


class Gen:
    """Makes a program as a tree of parts, its source, and (later) an interpretation of it"""
    def __init__(self, j, cpu, rnd, nest=True):
        self.j, self.cpu, self.rnd = j, cpu, rnd
        self.v8 = [j.bits(8) for _ in range(2)]
        self.v16 = [j.bits(12, prefix='%01'), j.bits(12, prefix='%10')]
        self.g = [j.bits(4), j.bits(7)]
        self.cond = [j.bits(1) for _ in range(2)]
        self.labels, self.n, self.files, self.macros = [], 0, {}, []
        self.nest = nest

    def value(self, x):
        return z3.Concat(z3.BitVecVal(1, 2) if x is self.v16[0] else z3.BitVecVal(2, 2), x.bv)

    def part(self, depth, local):
        """(lines, interpretation): interpretation is f(st)"""
        r = self.rnd
        k = r.randrange(14 if depth < 2 else 11)
        lab, text = None, ''
        if r.randrange(2) and depth == 0 and k not in (3, 4, 5, 6, 10):
            self.n += 1
            lab = 'lab%d' % self.n
            self.labels.append(lab)
            text = lab
        def here(st, lab=lab):
            if lab:
                st.lab[lab] = st.pc
        if k in (0, 7):
            v = r.choice(self.v8)
            c = r.randrange(256)
            m = r.randrange(1, 4)
            def f(st):
                here(st)
                for x in [v.bv, c, v.bv][:m]:
                    st.put(x)
            return [text + ' db ' + ','.join((str(v), '%d' % c, str(v))[:m])], f
        if k == 1:
            n = r.randrange(0, 20)
            def f(st):
                here(st)
                for _ in range(n):
                    st.put(0x5A)
            return [text + ' ds %d,$5A' % n], f
        if k in (2, 8):
            # a reference
            t = r.choice(self.labels[-6:] + ['fwd%d' % r.randrange(2), '*']) if self.labels else '*'
            d = r.choice((0, 0, 1, -1, 5))
            def f(st, t=t):
                here(st)
                pc = st.pc
                st.ref(t, pc, d)
            return [text + ' dw ' + t + ('%+d' % d if d else '')], f
        if k == 3:
            x = r.choice(self.v16)
            def f(st):
                st.pc = ext(self.value(x))
            return [r.choice((' * = %s', '* = %s', '* equ %s', '*=%s')) % x.text], f
        if k == 4 and self.labels:
            t = r.choice(self.labels[-6:])
            d = r.choice((0, 1, 3, -2, 40))
            def f(st):
                st.pc = z3.simplify(st.lab[t] + d)
            return [' * = %s%+d' % (t, d)], f
        if k == 5:
            x = r.choice(self.g)
            neg = r.randrange(3) == 0
            c = r.randrange(30)
            def f(st):
                st.pc = z3.simplify(st.pc + c - ext(x.bv) if neg else st.pc + ext(x.bv))
            return [' * = *%+d-%s' % (c, x) if neg else ' * = *+' + x.text], f
        if k == 6:
            def f(st):
                st.pc = z3.simplify((st.pc + 15) & 0xFFF0)
            return [' * = (*+15)&$fff0'], f
        if k == 9:
            if r.randrange(3) == 0:
                odd = r.randrange(2)
                def f(st):
                    here(st)
                    if st.split(z3.Extract(0, 0, st.pc) == (0 if odd else 1)):
                        st.put(0)
                return [text + ' align ' + ('odd' if odd else 'even')], f
            op, b = {'6502': ('lda #%s', 0xA9), '6800': ('ldaa #%s', 0x86), 'z80': ('ld a,%s', 0x3E)}[self.cpu]
            v = r.choice(self.v8)
            def f(st):
                here(st)
                st.put(b)
                st.put(v.bv)
            return [text + ' ' + op % v], f
        if k in (10, 4):
            d = r.randrange(2)
            def f(st):
                here(st)
                st.code = not d
            return [text + (' dummy' if d else ' code')], f
        # composite parts
        parts = [self.part(depth + 1, local) for _ in range(r.randrange(1, 4))]
        lines = [l for p, f in parts for l in p]
        def f(st):
            for p, g in parts:
                g(st)
        if k == 11:
            c = r.choice(self.cond)
            alt = [self.part(depth + 1, local) for _ in range(r.randrange(0, 3))]
            def f2(st):
                here(st)
                for p, g in parts if st.split(c.bv == 1) else alt:
                    g(st)
            return ([text] if lab else []) + [' if %s' % c] + lines + [' else'] + [l for p, g in alt for l in p] + [' endc'], f2
        def f3(st):
            here(st)
            f(st)
        if k == 12:
            self.n += 1
            self.files['f%d' % self.n] = ''.join(l + '\n' for l in lines)
            return ([text] if lab else []) + [' include f%d' % self.n], f3
        self.n += 1
        self.macros += ['mac%d macro' % self.n] + lines + [' endm']
        return [text + ' mac%d' % self.n], f3


class State:
    def __init__(self, path, labels):
        self.path, self.pc, self.code, self.lab, self.known = path, None, True, {}, labels
        self.want, self.memo = [], {}

    def split(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = c.get_id()
        if k not in self.memo:
            self.memo[k] = c, self.path.split(c)
        return self.memo[k][1]

    def put(self, v):
        if self.code:
            self.want.append((self.pc, v))
        self.pc = z3.simplify(self.pc + 1)

    def ref(self, t, pc, d):
        v = pc if t == '*' else self.known.get(t, B32(0)) if t.startswith('fwd') else self.lab[t]
        v = z3.simplify(v + d)
        b = [z3.Extract(15, 8, v), z3.Extract(7, 0, v)]
        for x in b if self.big else b[::-1]:
            self.put(z3.simplify(x))


def program(name, cpu, seed, n, **kw):
    rnd = random.Random(seed)
    j = job(name, maxpaths=500, maxtime=60)
    g = Gen(j, cpu, rnd)
    parts = [g.part(0, None) for _ in range(n)]
    last = [(['fwd0 db 1', ' code', ' db 2', 'fwd1'], None)]
    first = g.v16[0]
    src = [' cpu ' + cpu] + g.macros + [' * = ' + first.text] + [l for p, f in parts for l in p] + last[0][0]
    def run(path, known):
        st = State(path, known)
        st.big = cpu == '6800'
        st.pc = ext(g.value(first))
        for p, f in parts:
            f(st)
        st.lab['fwd0'] = st.pc
        st.put(1)
        st.code = True
        st.put(2)
        st.lab['fwd1'] = st.pc
        return st
    def orc(job, path):
        st = run(path, {})
        st = run(path, {k: st.lab[k] for k in ('fwd0', 'fwd1')})
        check(path, st.want, st.pc)
    j.oracle = orc
    j.add({'a.asm': ''.join(l + '\n' for l in src), **g.files})
    return j


def check(path, want, pc):
    r = path.runs[0]
    ls = Listing(r.listing)
    if ls.errors:
        path.fail('unexpected error: %s' % (ls.errors[0],)); return
    if not r.has('o.hex'):
        path.fail('no code file'); return
    must_image(path, r.file('o.hex'), want)
    o, m = ls.tailline(r'^ Code length +(\S+) \((\S+)\)$')
    if o is None or m.group(2) != '%d' % len(want):
        path.fail('wrong code length in the summary')
    last(path, ls, z3.simplify(pc - 1))


def last(path, ls, want):
    o, m = ls.tailline(r'^ Last address +(\S+) \((-?\S+)\)$')
    if o is None:
        path.fail('no last address in the summary'); return
    v, ok = o.hexnum(m.start(1), m.end(1))
    path.must(ok, 'last address is no hex number')
    path.must(z3.simplify((z3.ZeroExt(32 - v.size(), v) if v.size() < 32 else z3.Extract(31, 0, v)) == want), 'wrong last address in the summary')


NEED = {None: ['db 1', 'dw 1', 'dl 1', 'ddb 1', 'asc "x"', 'ds 1', 'db *', 'dw *+1'], '6502': ['nop', 'lda #1', 'lda 5', 'jmp 5', 'bne 5', 'asl a'], '6800': ['nop', 'ldaa #1', 'ldaa 5', 'jmp 5', 'bsr 5', 'clra'], 'z80': ['nop', 'ld a,1', 'ld (ix+1),2', 'jp 5', 'jr 5', 'exx']}


def noorg(cpu):
    """code without an address"""
    j = job('%s no org' % cpu)
    v = j.bits(8)
    bad = [' ' + t for t in NEED[None] + (NEED[cpu] if cpu else [])] + ['lab1', 'lab2 db 1', 'q = *', ' * = *+1', ' dummy', ' db 1', 'lab3', ' ds 3', ' code', ' db 2', 'lab4 = 5', ' ds 0', ' * = $100', ' db %s' % v, 'lab5']
    ok = {t for t in (' dummy', ' code', 'lab4 = 5', ' * = $100', ' db %s' % v, 'lab5')}
    any_ = {' ds 0'}
    src = ([' cpu ' + cpu] if cpu else []) + bad
    def orc(job, path):
        ls = Listing(path.runs[0].listing)
        e = {d[0] for d in ls.errors}
        for n, t in enumerate(src, 1):
            if t.startswith(' cpu') or t in any_:
                continue
            if (n in e) == (t in ok):
                path.fail('line %d (%s): %s before the first assignment to *' % (n, t, 'refused' if t in ok else 'accepted'))
        if path.runs[0].has('o.hex'):
            path.fail('code file in spite of errors')
    j.oracle = orc
    j.add(''.join(t + '\n' for t in src))
    return j


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for cpu in ('6502', '6800', 'z80'):
        for k in range(16 if not big else 150):
            J.append(program('%s program %d' % (cpu, k), cpu, k * 7 + len(cpu), 8 + k % 5 * 3))
    for cpu in (None, '6502', '6800', 'z80', '65C02', '6801'):
        if cpu in NEED:
            J.append(noorg(cpu))
    # a whole program in DUMMY: no code at all but for one byte; state at the start of a pass
    # lines refused after some bytes: the next line stands behind the bytes shown
    for cpu in ('6502', '6800', 'z80'):
        for k in range(2):
            j = job('%s refused lines %d' % (cpu, k), maxpaths=60)
            o, v = j.bits(12, prefix='%001'), j.bits(8)
            rnd = random.Random(k)
            bad = [' db %s' % ','.join([v.text] * n + ['zz(']) for n in range(8)] + [' asc "%s\\q"' % ('abcdefg'[:n]) for n in range(7)] + [' dw 1,%s,' % v, ' dw nosuch', ' dl %s,%s+' % (v, v), ' foo %s' % v, ' ds -1', ' align x',
                   {'6502': ' bne *+300', '6800': ' bne *-300', 'z80': ' jr *+300'}[cpu], {'6502': ' jsr #1', '6800': ' staa #1', 'z80': ' im 7'}[cpu], {'6502': ' lda', '6800': ' ldx', 'z80': ' rst 9'}[cpu]]
            if k:
                rnd.shuffle(bad)
            lines = [' cpu ' + cpu, ' * = %s' % o]
            for n, b in enumerate(bad):
                lines += [b, 'l%d db %d,%s' % (n, n, v)]
            def orc(job, path, lines=lines, bad=bad, o=o, v=v):
                ls = Listing(path.runs[0].listing)
                pc = z3.ZeroExt(16, z3.Concat(z3.BitVecVal(1, 4), o.bv))
                if sorted(n for n, q, m in ls.diags if q == 'ERROR') != list(range(3, len(lines) + 1, 2)):
                    path.fail('errors on lines %s' % [n for n, q, m in ls.diags]); return
                for n in range(3, len(lines) + 1):
                    row = ls.row(n)
                    bs, ok = row.bytes() if row is not None else ([], False)
                    if n % 2 == 0 and len(bs) != 2:
                        path.fail('line %d does not show its bytes' % n); return
                    if not bs:
                        continue
                    a, ok = row.address()
                    if a is None:
                        path.fail('line %d shows no address' % n); return
                    path.must(ok, 'address of line %d' % n)
                    path.must(z3.simplify((z3.BitVecVal(a, 32) if isinstance(a, int) else z3.ZeroExt(32 - a.size(), a) if a.size() < 32 else a) & 0xffff == pc & 0xffff), 'address of line %d' % n)
                    pc = z3.simplify(pc + len(bs))
            j.oracle = orc
            j.add(source(lines))
            J.append(j)
    j = job('dummy at the end')
    o, v = j.bits(16), j.bits(8)
    def orc(job, path, o=o, v=v):
        pc = z3.ZeroExt(16, o.bv)
        check(path, [(pc, 1), (z3.simplify(pc + 1), v.bv)], z3.simplify(pc + 42))
    j.oracle = orc
    j.add(' cpu 6502\n * = %s\n db 1\n db %s\n dummy\n ds 40\nend1 = *\n' % (o, v))
    J.append(j)
    for sect in ('dummy', 'code'):
        # 32-bit addresses
        j = job('32 bits ' + sect)
        o, v, g = j.bits(30, prefix='%00'), j.bits(8), j.bits(6)
        def orc(job, path, sect=sect, o=o, v=v, g=g):
            pc = z3.ZeroExt(2, o.bv)
            want = [(pc, v.bv)]
            if sect == 'code':
                want += [(z3.simplify(pc + 1 + k), 7) for k in range(3)]
            p2 = z3.simplify(pc + 4 + ext(g.bv))
            want += [(p2, z3.Extract(7, 0, p2)), (z3.simplify(p2 + 1), 9)]
            check(path, want, z3.simplify(p2 + 2))
        j.oracle = orc
        j.add(' * = %s\n db %s\n %s\n ds 3,7\n code\n * = *+%s\n db *&255\n db 9\n' % (o, v, sect, g))
        J.append(j)
    # much code, and code of sections not counted
    for k, (n, d) in enumerate(((250, 0), (255, 9), (256, 300), (4095, 1), (32767, 0), (32768, 40000), (65534, 0), (65535, 0), (65536, 3), (65537, 66000), (70000, 0))):
        j = job('long %d,%d' % (n, d), maxinst=400_000_000)
        v, o = j.bits(8), j.bits(3, prefix='%10000000')
        def orc(job, path, n=n, d=d, v=v, o=o):
            r = path.runs[0]
            ls = Listing(r.listing)
            if ls.errors:
                path.fail('unexpected error: %s' % (ls.errors[0],)); return
            pc = z3.ZeroExt(21, z3.Concat(z3.BitVecVal(0x80, 8), o.bv))
            got = ls.tailline(r'^ Code length +(\S+) \((\S+)\)$')
            if got[0] is None or (int(got[1].group(1), 16), int(got[1].group(2))) != (n + 3, n + 3):
                path.fail('wrong code length in the summary: %s' % (got[0] and got[0].shape))
            last(path, ls, z3.simplify(pc + n + d + 2))
        j.oracle = orc
        j.add({'a.asm': ' cpu 6800\n * = %s\n db 1\n ds %d,%s\n dummy\n ds %d\n code\n db %s,2\n' % (o, n, v, d, v)} if n < 40000 and d < 40000 else {'a.asm': ' * = %s\n db 1\n ds %d,%s\n dummy\n ds %d\n code\n db %s,2\n' % (o, n, v, d, v)})
        J.append(j)
    # the address of a line is the one of its first byte, wherever the labels are
    for cpu, ins, bs in (('6502', 'jmp *', [0x4C]), ('6800', 'jmp *', [0x7E]), ('z80', 'jp *', [0xC3])):
        j = job(cpu + ' star')
        o = j.bits(14, prefix='%10')
        pc = z3.Concat(z3.BitVecVal(2, 2), o.bv)
        w16 = (lambda a: [hi(a), lo(a)]) if cpu == '6800' else (lambda a: [lo(a), hi(a)])
        want, a = [], pc
        src = [' cpu ' + cpu, ' * = ' + o.text]
        for t, f in ((ins, lambda a: bs + w16(a)), ('l%d dw *', w16), (ins + '+2', lambda a: bs + w16(z3.simplify(a + 2))), ('l%d ' + ins, lambda a: bs + w16(a)), ('dw *-3', lambda a: w16(z3.simplify(a - 3))), ('dw -*', lambda a: w16(z3.simplify(-a))), ('dw 2**', lambda a: w16(z3.simplify(2 * a))), ('dw *&$0fff', lambda a: w16(z3.simplify(a & 0xfff))), ('dw (*+1)/1', lambda a: w16(z3.simplify(a + 1)))):
            src.append((t % len(src) if '%' in t else ' ' + t))
            for x in f(a):
                want.append((z3.ZeroExt(16, a), z3.simplify(x) if z3.is_expr(x) else x))
                a = z3.simplify(a + 1)
        def orc(job, path, want=want, a=a):
            check(path, want, z3.ZeroExt(16, a))
        j.oracle = orc
        j.add(''.join(t + '\n' for t in src))
        J.append(j)
    J += series('C20', tier)
    return J
