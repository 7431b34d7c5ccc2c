"""C17: the listing shows every line with its number, text, address and code."""
import z3, random
from tmpl import *
from lst import R, check, chars
from asm import must_image, Listing
from world import series, bounds

BOUNDS = ('programs of every kind of line for each CPU with symbolic operands and origins (16 bits; 32 without CPU), comments, strings and labels with arbitrary printable or 8-bit characters at any place, tabs anywhere, lines of 1 to 248 characters, '
          'DB, ASC and DS of 0 to 60 bytes (symbolic values), macro calls (MLIST off and on, nested, with labels), included files, also in listed macros, both branches of conditionals, lines of every kind in parts not selected; up to 1200 lines (thorough: 12000)')
BOUNDS += bounds('C17')
OUTSIDE = 'how lines beyond the width are broken (blanks there are not compared); which part of more than 20 bytes of one line is shown; lines of macros and included files after an error'
TEXT = bytes(c for c in range(33, 256) if c != 127)
SAFE = bytes(c for c in TEXT if c not in b'\'"\\;,()')
LONG = bytes(c for c in SAFE if not 48 <= c < 58 and c not in b'CM')


class P17:
    """a program, its expected rows, its code"""
    def __init__(self, j, cpu, pc=None, digits=None):
        self.j, self.cpu, self.pc = j, cpu, pc
        self.lines, self.rows, self.code, self.n = [], [], [], 0
        self.files = {}
        if cpu:
            self.add(' cpu ' + cpu)

    def add(self, text, bytes=(), eq=None, list=True, pfx=None, cnt=None, **kw):
        """a source line; cnt: bytes reserved"""
        self.n += 1
        self.lines.append(text)
        self.row(text, bytes, eq, num=None if pfx else self.n, pfx=pfx, **kw)
        return self

    def row(self, text, bytes=(), eq=None, num=None, pfx=None, **kw):
        bs = []
        for x in bytes:
            bs.append((self.pc, x))
            self.code.append((self.pc, x))
            self.pc = inc(self.pc, 1)
        self.rows.append(R(text, bs, eq=eq, num=num, pfx=pfx, **kw))

    def org(self, text, v, fmt=' * = %s'):
        self.add(fmt % text, eq=v)
        self.pc = v if isinstance(v, int) else z3.ZeroExt(32 - v.size(), v) if v.size() < 32 else v
        return self

    def done(self, last=True, args=None):
        rows, code, pc = self.rows, self.code, self.pc
        def orc(job, path, rows=rows, code=code, pc=pc):
            r = path.runs[0]
            ls = check(path, job, rows)
            if ls.errors:
                path.fail('unexpected error %s' % (ls.errors[0],)); return
            if code and not r.has('o.hex'):
                path.fail('no code file'); return
            if code:
                must_image(path, r.file('o.hex'), code)
            if last:
                summary(path, ls, inc(pc, -1), len(code))
        self.j.oracle = orc
        f = {'a.asm': ''.join(l + '\n' for l in self.lines)}
        f.update(self.files)
        self.j.add(f, **(dict(args=args) if args else {}))
        return self.j


def inc(x, k):
    return (x + k) & 0xffffffff if isinstance(x, int) else z3.simplify(x + k)


def summary(path, ls, last, length):
    o, m = ls.tailline(r'^ Last address +(\S+) \((-?\S+)\)$')
    if o is None:
        path.fail('no last address in the summary')
    else:
        v, ok = o.hexnum(m.start(1), m.end(1))
        w = v.size()
        l = z3.BitVecVal(last, 32) if isinstance(last, int) else last
        path.must(ok, 'last address is no hex number')
        l64 = z3.ZeroExt(32, l)
        path.must(z3.simplify((z3.ZeroExt(64 - w, v) if w < 64 else v) == l64), 'wrong last address in the summary')
        # the decimal one
        if isinstance(last, int):
            if o.shape[m.start(2):m.end(2)] != '%d' % last:
                path.fail('wrong decimal last address in the summary')
    o, m = ls.tailline(r'^ Code length +(\S+) \((\S+)\)$')
    if o is None:
        path.fail('no code length in the summary')
    elif (m.group(1), m.group(2)) != ('%x' % length, '%d' % length):
        path.fail('wrong code length in the summary')


INS = {'6502': [('lda #%s', [0xA9], 1), ('lda %s', [0xA5], 1), ('jmp $1200+%s', [0x4C], 2, 0x1200), ('nop', [0xEA], 0)],
       '6800': [('ldaa #%s', [0x86], 1), ('ldx #$1200+%s', [0xCE], 2, 0x1200), ('jsr $2100+%s', [0xBD], 2, 0x2100), ('nop', [0x01], 0)],
       'z80': [('ld a,%s', [0x3E], 1), ('ld hl,$1200+%s', [0x21], 2, 0x1200), ('jp $2100+%s', [0xC3], 2, 0x2100), ('set 3,(ix+5)', [0xDD, 0xCB, 5, 0xDE], 0), ('nop', [0], 0)]}


def instr(cpu, k, v):
    t = INS[cpu][k % len(INS[cpu])]
    b = list(t[1])
    if t[2] == 1:
        b.append(v.bv)
    elif t[2] == 2:
        b += order(cpu, z3.BitVecVal(t[3], 16) + z3.ZeroExt(8, v.bv), 2)
    return (t[0] % v.text if '%s' in t[0] else t[0]), b


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for cpu in ('6502', 'z80'):
        for alt in ('if', 'else'):
            J.append(skipped(cpu, alt))
        for deep in (0, 1):
            J.append(inmacro(cpu, deep))
    # programs with lines of every kind
    for cpu in ('6502', '6800', 'z80'):
        for seed in range(3 if not big else 12):
            J.append(program(cpu, seed, big))
    # addresses of 32 bits without CPU
    for pfx in ('%0', '%1'):
        j = job('no cpu, origin %s' % pfx, maxpaths=400)
        n = 30 if pfx == '%1' else 12
        o, v = j.bits(n, prefix=pfx), j.bits(8)
        p = P17(j, None)
        p.org(o.text + ('' if n == 30 else '<<18|$3fff8'), z3.Concat(z3.BitVecVal(1, 2), o.bv) if n == 30 else z3.Concat(z3.BitVecVal(0, 2), o.bv, z3.BitVecVal(0x3fff8, 18))).add(' db ' + ','.join([v.text] * 20), [v.bv] * 20).add(' dl %s' % v, [0, 0, 0, v.bv]).add('x = *', eq=p.pc).add(' ds 5', [0] * 5)
        J.append(p.done(last=False))
    # the last address, in both notations
    for k, o in enumerate((0, 9, 0xfff0, 0xfff8, 0xffff8, 9999992, 0xfffff8, 0x7ffffff8, 0x80000000, 0x80000008, 0x9876543e, 0xfffffff0, 0xffffffe9, 99999993, 999999993)):
        for cpu in (None, '6502', 'z80')[:1 if o > 0xfff8 else 3]:
            j = job('last address %x %s' % (o, cpu), maxpaths=60)
            n, v = j.bits(3), j.bits(8)
            def orc(job, path, n=n, o=o):
                k = path.which(n.bv, range(8))
                r = path.runs[0].listing
                ls = Listing(r)
                q = ls.tailline(r'^ Last address +(\S+) \((\S+)\)$')[1]
                c = ls.tailline(r'^ Code length +(\S+) \((\S+)\)$')[1]
                if not q or not c:
                    path.fail('no summary'); return
                if (int(q.group(1), 16), q.group(2)) != (o + k, '%d' % (o + k)):
                    path.fail('last address is said to be %s, it is %x' % (q.group(0), o + k))
                if (int(c.group(1), 16), c.group(2)) != (k + 1, '%d' % (k + 1)):
                    path.fail('code length is said to be %s, it is %d' % (c.group(0), k + 1))
            j.oracle = orc
            j.add((' cpu %s\n' % cpu if cpu else '') + 'n = %s\n * = $%x\n db %s\n ds n\n' % (n, o, v))
            J.append(j)
    # number of bytes
    for cpu in ('6502', None):
        for n in list(range(0, 24)) + [27, 28, 29, 35, 60] if cpu else (1, 2, 3, 4, 5, 8, 9, 15, 16, 20, 21, 22, 30):
            j = job('%s %d bytes' % (cpu, n))
            v = j.bits(8)
            c = j.byte(SAFE)
            p = P17(j, cpu).org('$1ff8', 0x1ff8)
            p.add(' ds %d,%s' % (n, v), [v.bv] * n)
            if n and n * 3 < 200:
                its = [('%d' % (k + 1), k + 1) if k % 5 else (v.text, v.bv) for k in range(n)]
                if sum(len(t) + 1 for t, x in its) < 230:
                    p.add('l%d db ' % n + ','.join(t for t, x in its), [x for t, x in its])
            s = [c.bv if k % 3 == 0 else 65 + k % 26 for k in range(n)]
            p.add('lab asc "' + ''.join(c.text if not isinstance(x, int) else chr(x) for x in s) + '"', s)
            p.add(' db 1', [1])
            J.append(p.done())
    # text
    for k, (a, b) in enumerate((('; ', ''), ('', ''), ('  ;', ' x'), (' db 1 ;', ''), ('lab db 1\t; t ', '\tu'), (' asc "', '"'), ('\tdb\t2\t;\t', ' '), (' dw 1 ; ', '; '), (' asc "a\tb', '\t"'), ('\t\tdb 1', ' ; c'), (" db '", "'"), (' nam ', ' x'), ('; (unbalanced "', '\\'))):
        for n in (1, 2, 3):
            j = job('text %d of %d' % (k, n), maxpaths=3000)
            dom = SAFE if '"' in a or "'" in a else bytes(x for x in TEXT if x not in b'=;') if 'nam' in a else TEXT
            if a == '':
                cs = [j.byte(b';')] + [j.byte(TEXT) for _ in range(n - 1)]
            elif a == '\t\tdb 1':
                cs = [j.byte(b'0123456789') for _ in range(n)] if n < 2 else [j.byte(b' \t')] * (n - 1) + [j.byte(b' ')]
                cs = cs if n < 2 else [type('B', (), dict(text=' ', bv=32))] * n
            elif a == " db '":
                cs = [j.byte(bytes(x for x in dom if x < 127))]
                if n > 1:
                    continue
            else:
                cs = [j.byte(dom) for _ in range(n)]
            s = tx(cs)
            p = P17(j, '6800').org('$100', 0x100)
            v = [c.bv for c in cs]
            exp = {3: [1], 4: [1], 5: v, 6: [2], 7: [0, 1], 8: [97, 9, 98] + v + [9], 10: v}.get(k, [])
            if k == 9:
                exp = [z3.simplify(10 + v[0] - 48)] if n < 2 else [1]
            p.add(a + s + b, exp)
            p.add(' db 3', [3])
            p.add('', []).add(' ', []).add('end db 1 ; ' + s, [1])
            J.append(p.done(last=True))
    # long lines
    for n in (44, 46, 47, 48, 49, 50, 60, 75, 76, 77, 95, 96, 97, 120, 145, 200, 240, 247, 248):
        j = job('line of %d' % n, maxpaths=600)
        c, v = j.byte(LONG), j.bits(8)
        p = P17(j, '6502').org('$100', 0x100)
        w = 'abcde fghij klmno%s pqrst uvw xyzstuv ' % c
        fill = lambda m: (w * 20)[:m - 1] + c.text
        p.add('; ' + fill(n - 2))
        p.add('lab%d db %s ; ' % (n, v) + fill(n - len('lab%d db %s ; ' % (n, v))), [v.bv])
        t = ' asc "' + ('x' * (n - 8)) + c.text + '"'
        p.add(t, [120] * (n - 8) + [c.bv])
        s, by = ' db %s' % v, [v.bv]
        while len(s) + len(v.text) + 1 <= n:
            s, by = s + ',' + v.text, by + [v.bv]
        p.add(s, by)
        p.add(';' + 'y' * (n - 2) + c.text)
        p.add('l' * 36 + ' dw ' + 'l' * 36 + ' ; ' + fill(max(2, n - 36 - 36 - 8)), order('6502', p.pc if not isinstance(p.pc, int) else z3.BitVecVal(p.pc, 32), 2))
        p.add(' db 7', [7])
        J.append(p.done())
    # values
    for cpu, w in (('6502', 16), ('z80', 16), (None, 32)):
        j = job('%s values' % cpu, maxpaths=200)
        v = j.bits(w)
        x = v.bv
        p = P17(j, cpu)
        p.add('a1 = %s' % v, eq=x).add('a2 equ a1 ; comment', eq=x).add('a3 equ %s&15' % v, eq=x & 15).add('a4 = -1', eq=-1 & ((1 << w) - 1)).add('a5=a1', eq=x).add('\ta6\tEQU\ta5\t', eq=x).add('a7 equ 5', eq=5)
        p.org(v.text, x)
        p.add('here')
        p.add(' dummy').add('d0', eq=x).add('d1 ds 3', eq=x)
        p.pc = inc(p.pc, 3)
        p.add('d2 db 1,2', eq=p.pc)
        p.pc = inc(p.pc, 2)
        p.add(' dw 5')
        p.pc = inc(p.pc, 2)
        p.add('d3 = *+1', eq=inc(p.pc, 1)).add('d4', eq=p.pc).add(' code').add('c0').add('c1 = c0', eq=p.pc)
        J.append(p.done(last=False))
    # the address counts through symbolic gaps
    for cpu in ('6800', 'z80'):
        j = job('%s gaps' % cpu, maxpaths=300)
        a, b, o = j.bits(4), j.bits(3), j.bits(12, prefix='%001')
        p = P17(j, cpu).org(o.text, z3.Concat(z3.BitVecVal(1, 4), o.bv))
        p.add(' db 1', [1])
        t = inc(p.pc, z3.ZeroExt(28, a.bv))
        p.add(' * = *+%s' % a, eq=t); p.pc = t
        p.add('l1 db 2', [2])
        t = inc(p.pc, z3.ZeroExt(29, b.bv))
        p.add('* = *+%s ; again' % b, eq=t); p.pc = t
        p.add('l2 dw l2', order(cpu, p.pc, 2)).add('l3 = l1', eq=inc(z3.simplify(z3.ZeroExt(16, z3.Concat(z3.BitVecVal(1, 4), o.bv))), z3.ZeroExt(28, a.bv) + 1))
        J.append(p.done())
    # conditionals
    for depth in (1, 2, 3):
        j = job('conditionals %d' % depth, maxpaths=200)
        J.append(conditionals(j, [j.bits(1) for _ in range(depth)], j.bits(8)))
    # macros and files
    for ml in (0, 1):
        for cpu in ('6502', 'z80'):
            J.append(macros(ml, cpu))
    for il in (0, 1):
        J.append(includes(il))
    # many lines
    for n in (100, 1200) + ((12000,) if big else ()):
        j = job('%d lines' % n, maxinst=2_000_000_000, maxtime=400)
        v = j.bits(8)
        p = P17(j, '6800').org('$100', 0x100)
        for k in range(n):
            if k % 40 == 7:
                p.add('l%d db %s' % (k, v), [v.bv])
            elif k % 5:
                p.add('')
            else:
                p.add('; line %d' % (k + 3))
        p.add(' db 2', [2])
        J.append(p.done())
    # warnings and errors stand above their line
    j = job('warnings')
    v = j.bits(8)
    p = P17(j, '6502').org('$1000', 0x1000)
    p.add(' db $1%02x ; x' % 5, [5], warning=True).add(' db %s' % v, [v.bv]).add(' ds 2,$100+%s' % v, [v.bv] * 2, warning=True).add(' dw $12345', [0x45, 0x23], warning=True).add(' db 1', [1])
    J.append(p.done())
    j = job('errors', maxpaths=100)
    v = j.bits(8)
    p = P17(j, '6502').org('$1000', 0x1000)
    p.add(' db %s' % v, [v.bv]).add(' nosuch %s' % v, error=True).add(' db 2', [2]).add(' lda #', error=True).add(' fail the end', error=True).add('x y z', error=True).add(' db %s' % v, [v.bv]).add('9x db 1', error=True).add(' asc "', error=True).add(' dw %s' % v, order('6502', z3.ZeroExt(8, v.bv), 2))
    rows = p.rows
    def orc(job, path, rows=rows):
        check(path, job, rows)
    p.done()
    j.oracle = orc
    J.append(j)
    J += series('C17', tier)
    return J


def program(cpu, seed, big):
    rnd = random.Random(seed)
    j = job('%s program %d' % (cpu, seed), maxpaths=300)
    o, v, c = j.bits(12, prefix='%001'), j.bits(8), j.byte(SAFE)
    p = P17(j, cpu)
    p.add('; ' + c.text + ' heading')
    p.add('early equ %s' % v, eq=v.bv)
    p.org(o.text, z3.Concat(z3.BitVecVal(1, 4), o.bv), rnd.choice((' * = %s', '* = %s', '*=%s', ' * equ %s ; start')))
    tail = lambda: rnd.choice(('', '', ' ; note %s' % c, '\t;x', ' ;'))
    head = lambda k: rnd.choice(('', '', 'l%d' % k, 'Label_%d' % k, '.%d' % k))
    for k in range(40 if not big else 90):
        r = rnd.randrange(12)
        h = head(k)
        sp = rnd.choice((' ', '  ', '\t', '          '))
        if r < 4:
            t, b = instr(cpu, rnd.randrange(9), v)
            p.add(h + sp + t + tail(), b)
        elif r == 4:
            p.add(h + sp + 'db' + sp + '%s,%s+1' % (v, v) + tail(), [v.bv, v.bv + 1], warning=None)
        elif r == 5:
            p.add(h + sp + 'dw %s' % v + tail(), order(cpu, z3.ZeroExt(8, v.bv), 2))
        elif r == 6:
            s = [rnd.choice((c.bv, 65, 98, 32, 48)) for _ in range(rnd.randrange(1, 20))]
            p.add(h + sp + 'asc "' + ''.join(c.text if not isinstance(x, int) else chr(x) for x in s) + '"' + tail(), s)
        elif r == 7:
            p.add(h + sp + 'ds %d' % (k % 7) + tail(), [0] * (k % 7))
        elif r == 8:
            p.add('e%d equ early' % k + tail(), eq=v.bv)
        elif r == 9:
            p.add(rnd.choice(('', '  ', '; text', '\t; text %s' % c, ';')))
        elif r == 10:
            p.add('h%d%s' % (k, rnd.choice(('', ' ; x', '  '))))
        else:
            p.add('s%d%s=%s*' % (k, sp, sp) + tail(), eq=p.pc)
    p.add(' db 1', [1])
    return p.done()


def conditionals(j, bits, v):
    p = P17(j, '6800').org('$2000', 0x2000)
    src, plan = [' cpu 6800', ' * = $2000'], []
    def build(d, tag):
        if d == len(bits):
            plan.append(('x', ' db %s ; %s' % (v, tag), 1)); plan.append(('x', 'e%s equ 5' % tag, 0)); return
        plan.append(('if', ' if %s' % bits[d], d))
        build(d + 1, tag + 'a')
        plan.append(('else', ' else ; %s' % tag, d))
        build(d + 1, tag + 'b')
        plan.append(('endc', ' endc', d))
    build(0, 't')
    plan.append(('x', ' db 1', 2))
    text = src + [t for k, t, d in plan]

    def orc(job, path):
        sel = [path.split(b.bv == 1) for b in bits]
        rows = [R(src[0], num=1), R(src[1], eq=0x2000, num=2)]
        pc, stack, n, code = 0x2000, [], 2, []
        for k, t, d in plan:
            n += 1
            if k == 'if':
                on = all(stack)
                rows.append(R(t, num=n if on else None, pfx=None if on else 'C'))
                stack.append(sel[d])
            elif k == 'else':
                x = stack.pop()
                on = all(stack)
                rows.append(R(t, num=n if on else None, pfx=None if on else 'C'))
                stack.append(not x)
            elif k == 'endc':
                stack.pop()
                on = all(stack)
                rows.append(R(t, num=n if on else None, pfx=None if on else 'C'))
            elif all(stack):
                b = [v.bv] if d == 1 else [1] if d == 2 else []
                rows.append(R(t, [(pc + i, x) for i, x in enumerate(b)], num=n, eq=5 if not b else None))
                code += [(pc + i, x) for i, x in enumerate(b)]
                pc += len(b)
            else:
                rows.append(R(t, pfx='C'))
        ls = check(path, job, rows)
        must_image(path, path.runs[0].file('o.hex'), code)
        summary(path, ls, pc - 1, len(code))
    j.oracle = orc
    j.add(''.join(l + '\n' for l in text))
    return j


def macros(ml, cpu):
    j = job('%s macros, mlist %d' % (cpu, ml), maxpaths=200)
    v, w, c = j.bits(8), j.bits(8), j.byte(SAFE)
    p = P17(j, cpu)
    for t in ('one macro ; first', ' db \\1,\\2', ' ; comment \\1', '.l dw .l', 'q\\1 equ \\2', ' endm'):
        p.add(t)
    for t in ('two macro', ' db \\1', ' one 2,\\1', '', ' db \\#', ' if \\1=\\1', ' db 9', ' else', ' db 8', ' endc', ' endm'):
        p.add(t)
    p.org('$3000', 0x3000)
    if ml:
        p.add(' mlist on')
    le = lambda x: order(cpu, z3.BitVecVal(x, 16), 2)
    def call(text, body):
        """body: [(text, bytes, eq, prefix)]"""
        p.n += 1
        p.lines.append(text)
        if ml:
            p.row(text, num=p.n)
            for t, b, e, x in body:
                p.row(t, b, eq=e, pfx=x)
        else:
            p.row(text, [x for t, b, e, x2 in body for x in b], num=p.n)
    def one(a, b, x, y):
        return [(' db %s,%s' % (a, b), [x, y], None, 'M'), ('', [], None, 'M'), ('.l dw .l', le(p.pc + 2), None, 'M'), ('q%s equ %s' % (a, b), [], y, 'M'), (' endm', [], None, 'M')]
    p.add(' db 1', [1])
    call(' one 5,%s' % v, one('5', v.text, 5, v.bv))
    p.add(' db 2 ; between', [2])
    call('lab\tone %s, 7 ; call' % 3, one('3', '7', 3, 7))
    def two(t, x):
        r = [(' db %s' % t, [x], None, 'M'), (' one 2,%s' % t, [], None, 'M')]
        p.pc += 1
        r += one('2', t, 2, x)
        p.pc -= 1
        return r + [('', [], None, 'M'), (' db 1', [1], None, 'M'), (' if %s=%s' % (t, t), [], None, 'M'), (' db 9', [9], None, 'M'), (' else', [], None, 'M'), (' db 8', [], None, 'C'), (' endc', [], None, 'M'), (' endm', [], None, 'M')]
    call('l2 two %s' % v, two(v.text, v.bv))
    p.add(' dw l2', le(p.pc - 7))
    if ml:
        p.add(' mlist off')
        ml = 0
        call(' one 8,9', one('8', '9', 8, 9))
    p.add(' db 3', [3])
    # an .endm row shows no code, and the last of the lines of a macro is its ENDM
    rows = [r for r in p.rows if r.text != ' endm' or r.pfx != 'M']
    p.rows = rows
    return p.done()


def inmacro(cpu, deep):
    """INCLUDE in macros the expansion of which is listed"""
    j = job('%s include in macro %d' % (cpu, deep))
    v = j.bits(8)
    p = P17(j, cpu)
    for t in ('m1 macro', ' db \\1', ' include f1', ' db 1,\\1', 'q\\2 equ \\1', ' include f2', ' db 2', ' endm', 'm2 macro', ' m1 \\1,7', ' include f1', ' db \\1', ' endm', ' mlist on'):
        p.add(t)
    p.org('$4000', 0x4000)
    p.files['f1'] = ' db 9\n\n db 8'
    p.files['f2'] = '' if not deep else ' m3 5\n db 4\n'
    p.files['a0'] = 'm3 macro\n db \\1\n endm\n'
    p.add(' include a0')
    f1, f2 = [9, 8], [5, 4] if deep else []
    def hidden(bs):
        for x in bs:
            p.code.append((p.pc, x))
            p.pc = inc(p.pc, 1)
    def m1(a, x, n):
        p.row(' db ' + a, [x], pfx='M')
        p.row(' include f1', pfx='M')
        hidden(f1)
        p.row(' db 1,' + a, [1, x], pfx='M')
        p.row('q%d equ %s' % (n, a), eq=x, pfx='M')
        p.row(' include f2', pfx='M')
        hidden(f2)
        p.row(' db 2', [2], pfx='M')
    p.add(' m1 %s,1' % v)
    m1(v.text, v.bv, 1)
    p.add(' db 3', [3])
    p.add(' m2 %s' % v)
    p.row(' m1 %s,7' % v, pfx='M')
    m1(v.text, v.bv, 7)
    p.row(' include f1', pfx='M')
    hidden(f1)
    p.row(' db %s' % v, [v.bv], pfx='M')
    p.add(' db 6', [6])
    p.add(' include f1')
    hidden(f1)
    p.add(' db 6', [6])
    return p.done()


def skipped(cpu, alt):
    """lines of every kind in parts which are not selected, and in parts which may be"""
    j = job('%s skipped lines %s' % (cpu, alt))
    v, b, c = j.bits(8), j.bits(1), j.byte(SAFE)
    def orc(job, path):
        on = path.split(b.bv == 1)
        p = P17(j, cpu)
        build(p, on)
        rows, code = p.rows, p.code
        check(path, job, rows)
        r = path.runs[0]
        if not r.has('o.hex'):
            path.fail('no code file'); return
        must_image(path, r.file('o.hex'), code)
    def build(p, on):
        p.files['f'] = ' db 66\n'
        p.org('$1000', 0x1000)
        p.add(' db 1', [1])
        never = ['lab db 5', 'x equ 6', 'y = %s ; text %s' % (v, c), 'mm macro', ' db \\1', '', ' endm', '; comment %s' % c, '', ' mm 7', ' include f', ' include nowhere', ' list off', ' clist off', ' mlist on', ' page', ' skip 3', ' nam text', ' dummy', ' code', ' * = $7000',
                 '*=1', ' fail no', ' foo bar', 'alone', '9x', ' cpu z80', ' ds 700', ' asc "abc', ' align even', ' output hex', ' exitm', ' if 1', 'lab', ' else', ' foo', ' endc', ' if (', ' endc', 'mm MACRO ; again', ' exitm', ' endm', ' db 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23']
        if alt == 'if':
            p.add(' if 0')
        else:
            p.add(' if 1').add(' db 9', [9]).add(' else')
        for t in never:
            p.add(t, pfx='C')
        p.add(' endc')
        p.add(' db 2', [2])
        maybe = [('ma macro', 0), (' db \\1,3', 0), (' endm', 0), (' ma %s' % v, [v.bv, 3]), ('q1 = 4', 4), ('h1 db %s' % v, [v.bv]), ('.l asc "a"', [97]), ('', 0), ('; %s' % c, 0), ('h2', 0), (' include f', 0), (' db 8', [8]), ('m2 macro', 0), (' endm', 0), (' m2', 0), (' ds 22,%s' % v, [v.bv] * 22)]
        if alt == 'if':
            p.add(' if %s' % b)
        else:
            p.add(' if %s=0' % b).add(' db 3', [3] if not on else [], pfx=None if not on else 'C')
            p.add(' else')
        for t, x in maybe:
            if not on:
                p.add(t, pfx='C')
            else:
                p.add(t, x if isinstance(x, list) else (), eq=x if isinstance(x, int) and x else None)
                if t.endswith('include f'):
                    p.code.append((p.pc, 66))
                    p.pc = inc(p.pc, 1)
        p.add(' endc')
        p.add(' db 2', [2])
    p = P17(j, cpu)
    build(p, True)
    j.oracle = orc
    j.add(dict({'a.asm': ''.join(l + '\n' for l in p.lines)}, **p.files))
    return j


def includes(il):
    j = job('include, ilist %d' % il, maxpaths=200)
    v, c = j.bits(8), j.byte(SAFE)
    p = P17(j, '6800')
    if il:
        p.add(' ilist on')
    p.org('$3000', 0x3000)
    def inc_(name, rows, text=None):
        p.n += 1
        p.lines.append(text or ' include ' + name)
        put(name, rows, p.n, text or ' include ' + name)
    def put(name, rows, num, text):
        p.row(text, num=num)
        p.files[name] = ''.join(t + '\n' for t, b in rows)
        for k, (t, b) in enumerate(rows, 1):
            if isinstance(b, list) and b and isinstance(b[0], tuple):
                if il:
                    put(t.split()[-1], b, k, t)
                else:
                    n = len(p.rows)
                    put(t.split()[-1], b, k, t)
                    del p.rows[n:]
            elif il:
                p.row(t, b, num=k)
            else:
                n = len(p.rows)
                p.row(t, b, num=k)
                del p.rows[n:]
    p.add(' db 1', [1])
    inc_('f1', [(' db %s' % v, [v.bv]), ('; text %s' % c, []), (' ds 3', [0, 0, 0])])
    p.add(' db 2', [2])
    inc_('f2', [('l2 dw l2', [0x30, 6 if 1 else 0]), (' include f3', [(' db 9', [9]), ('', []), (' ldaa #%s' % v, [0x86, v.bv])]), (' db 8', [8])], ' include f2 ; the file')
    p.add(' db 4', [4])
    inc_('f4', [])
    if il:
        p.add(' ilist off')
        il = 0
        inc_('f5', [(' db 6,7', [6, 7])])
    p.add(' db 5', [5])
    return p.done()
