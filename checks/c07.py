"""C07: data directives."""
import z3
from tmpl import *
from asm import must_image, image

BOUNDS = ('DB, DW, DDB, DL with one operand of 32 symbolic bits (constant, label, forward label, expression), in the byte order of every processor and without CPU; lists of 1..40 operands of 8 symbolic bits; '
          'negative and too large operands; ASC of 0..60 characters, each symbolic over printable ASCII, in both quotes, every escape at every place of short strings, symbolic character after the backslash; '
          'DS with every count of 0..63 (symbolic) and some up to 65540, fill value symbolic over 16 bits; ALIGN EVEN and ODD at a symbolic 16-bit address; malformed operands')
OUTSIDE = 'source lines of more than 249 characters; DS counts above 131080'
CPUS = ('6500', '6502', '65C02', '6800', '6801', '6803', 'z80')
PRINT = bytes(range(32, 127))
ESC = {'\\t': 9, '\\n': 10, '\\r': 13, '\\0': 0, "\\'": 39, '\\"': 34, '\\\\': 92}
DIR = {'db': 1, 'dw': 2, 'ddb': 2, 'dl': 4}


def data(cpu, d, v):
    """v: 32 bits"""
    b = order(cpu, v, DIR[d])
    return b[::-1] if d == 'ddb' else b


def over(d, v):
    n = DIR[d] * 8
    return z3.BoolVal(False) if n == 32 else z3.Extract(31, n, v) != 0


def jobs(tier):
    J = []
    for cpu in CPUS:
        for st in STYLES:
            if st == 'hex' or tier == 'quick' and st == 'expr' and cpu not in ('6502', '6800'):
                continue
            j = job('%s values %s' % (cpu, st))
            t, v, pre, post = operand(j, st, 32)
            lines = [L(' %s %s' % (d, t), data(cpu, d, v), warn=warned(over(d, v))) for d in DIR]
            lines += [L('lb%s %s %s' % (d, d.upper(), t), data(cpu, d, v), warn=warned(over(d, v))) for d in DIR]
            J.append(finish(j, cpu, lines, pre, post))
        j = job('%s negative' % cpu)
        n = j.bits(9)
        v = -z3.ZeroExt(23, n.bv)
        J.append(finish(j, cpu, [L(' %s -%s' % (d, n.text), data(cpu, d, v), warn=warned(over(d, v))) for d in DIR]))
        # lists
        j = job('%s lists' % cpu)
        a = [j.bits(8) for _ in range(8)]
        V = [z3.ZeroExt(24, x.bv) for x in a]
        lines = []
        for d in DIR:
            for n in (1, 2, 3, 8, 9, 16, 17, 33, 40):
                if n == 40 and d not in ('db', 'dl'):
                    continue
                lines.append(L(' %s %s' % (d, ','.join('v%d' % (k % 8) for k in range(n))), sum((data(cpu, d, V[k % 8]) for k in range(n)), [])))
            lines.append(L(' %s %s , %s,%s   ,   %s ; , 4' % (d, a[0], a[1], a[2], a[3]), sum((data(cpu, d, x) for x in V[:4]), [])))
            lines.append(L(" %s v0+v1,(v2+1)*2,',',v3" % d, sum((data(cpu, d, x) for x in (V[0] + V[1], (V[2] + 1) * 2, z3.BitVecVal(44, 32), V[3])), []), warn=None))
        J.append(finish(j, cpu, lines, ['v%d = %s' % (k, x.text) for k, x in enumerate(a)]))
    # without CPU the order is that of the 6800 and addresses have 32 bits
    j = job('no cpu')
    a = j.bits(32)
    lines = [' * = $12345'] + [L(' %s %s' % (d, a), data('6800', d, a.bv), warn=warned(over(d, a.bv))) for d in DIR]
    def orc(job, path, lines=lines):
        check_lines(path, lines, 0x12345)
    j.oracle = orc
    j.add(source(lines))
    J.append(j)

    # ASC
    plain = bytes(c for c in PRINT if c not in b'\'"\\')
    easy = bytes(c for c in range(48, 123) if chr(c).isalnum())
    for cpu in ('6502', '6800', 'z80'):
        for q in '\'"':
            j = job('%s asc %s' % (cpu, 'single' if q == "'" else 'double'))
            cs = [j.byte(easy) for _ in range(60 if cpu == '6800' else 24)]
            cs[3] = j.byte(plain)
            lines, k = [], 0
            for n in (0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 20, 21, 22, 24, 31, 33, 48, 60):
                if n > len(cs):
                    continue
                lines.append(L(' asc %s%s%s' % (q, tx(cs[:n]), q), [c.bv for c in cs[:n]]))
            lines.append(L('text ASC   %s%s%s ; "comment\'' % (q, tx(cs[:5]), q), [c.bv for c in cs[:5]]))
            o = "'" if q == '"' else '"'
            lines.append(L(' asc %s%s%s%s%s%s' % (q, cs[0], o, cs[1], o, q), [cs[0].bv, ord(o), cs[1].bv, ord(o)]))
            lines.append(L(' asc %s;%s;%s' % (q, cs[0], q), [59, cs[0].bv, 59]))
            J.append(finish(j, cpu, lines))
    for n in (1, 2, 3, 5):
        j = job('asc escapes in %d' % n)
        cs = [j.byte(plain if k == n // 2 else easy) for k in range(n)]
        lines = []
        for p in range(n):
            for e, val in ESC.items():
                for q in '\'"':
                    lines.append(L(' asc %s%s%s' % (q, ''.join(e if k == p else c.text for k, c in enumerate(cs)), q), [val if k == p else c.bv for k, c in enumerate(cs)]))
        if n == 1:
            for e, a in ESC.items():
                for f, b in ESC.items():
                    for q in '\'"':
                        lines.append(L(' asc %s%s%s%s%s' % (q, e, f, cs[0], q), [a, b, cs[0].bv]))
                        lines.append(L(' asc %s%s%s%s%s%s' % (q, e, cs[0], f, e, q), [a, cs[0].bv, b, a]))
        J.append(finish(j, '6502', lines))
    # every character after a backslash
    j = job('asc backslash', maxpaths=40)
    c = j.byte(PRINT)
    def orc(job, path, c=c):
        known = z3.Or(*[c.bv == ord(e[1]) for e in ESC])
        k = split(path, known)
        val = z3.BitVecVal(0, 8)
        for e, b in ESC.items():
            val = z3.If(c.bv == ord(e[1]), z3.BitVecVal(b, 8), val)
        check_lines(path, [' cpu 6502', ' * = $1000', L(' asc "a\\%sb"' % c.text, [97, val, 98] if k else 'error')], 0x1000)
    j.oracle = orc
    j.add(' cpu 6502\n * = $1000\n asc "a\\%sb"\n' % c.text)
    j.expect_paths = 3
    J.append(j)
    j = job('asc malformed')
    c = j.byte(b'abcdefghijklmnopqrstuvwxyz0123456789')
    bad = ['asc', "asc '%s" % c, 'asc "%s' % c, "asc '%s\"" % c, 'asc %s' % c, "asc '%s'%s" % (c, c), "asc '%s','%s'" % (c, c), 'asc %s"%s"' % (c, c), 'asc "%s\\"' % c, "asc '", "asc '%s' + 1" % c, 'asc ("%s")' % c]
    J.append(finish(j, '6502', [L(' ' + t, 'error') for t in bad]))

    # DS
    for cpu in ('6502', '6800', 'z80'):
        for st in ('const', 'label', 'fill'):
            j = job('%s ds count %s' % (cpu, st), maxpaths=200, maxtime=80)
            n = j.bits(5 if st != 'label' else 6)
            f = j.bits(8)
            t = n.text if st != 'label' else 'n'
            src = ' cpu %s\n%s * = $ff8\n db $55\nda ds %s%s\n db $aa\nend dw end-da\n' % (cpu, 'n = %s\n' % n if st == 'label' else '', t, ',' + f.text if st == 'fill' else '')
            fill = f.bv if st == 'fill' else 0
            def orc(job, path, n=n, fill=fill, cpu=cpu):
                k = path.which(n.bv, range(1 << n.bv.size()))
                if not path.runs[0].has('o.hex'):
                    path.fail('no code file'); return
                want = [0x55] + [fill] * k + [0xaa] + order(cpu, z3.BitVecVal(k + 1, 32), 2)
                must_image(path, path.runs[0].file('o.hex'), [(0xff8 + i, b) for i, b in enumerate(want)])
            j.oracle = orc
            j.add(src)
            j.expect_paths = 30
            J.append(j)
    j = job('ds lines')
    f, v = j.bits(8), j.bits(16)
    lines = []
    for n in (0, 1, 2, 6, 7, 8, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 31, 32, 33, 40, 100, 255, 256, 300):
        lines += [L(' ds %d,%s' % (n, f), None), L(' db 1', None), L('x%d ds %d' % (n, n), None), L(' ds %d , v' % n, None)]
    exp = [' cpu 6800', 'v = ' + v.text, ' * = $1000'] + lines
    def orc(job, path, lines=lines, f=f, v=v, exp=exp):
        ls = Listing(path.runs[0].listing)
        if ls.errors:
            path.fail('error: %s' % (ls.errors[0],)); return
        for k, l in enumerate(lines):
            if k % 4 == 3 and not l.text.startswith(' ds 0 '):
                w = split(path, z3.UGT(v.bv, 255))
                got = bool(ls.row(k + 4).warnings)
                if w != got:
                    path.fail('the warning about the initialiser in line %d' % (k + 4))
            elif ls.row(k + 4).warnings and not l.text.startswith(' ds 0 '):
                path.fail('warning in line %d' % (k + 4))
        want = []
        for k, n in enumerate((0, 1, 2, 6, 7, 8, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 31, 32, 33, 40, 100, 255, 256, 300)):
            want += [f.bv] * n + [1] + [0] * n + [lo(v.bv)] * n
        if not path.runs[0].has('o.hex'):
            path.fail('no code file'); return
        must_image(path, path.runs[0].file('o.hex'), [(0x1000 + i, b) for i, b in enumerate(want)])
    j.oracle = orc
    j.add(source(exp))
    J.append(j)
    for n in (4096, 65535, 65536, 131080) if tier == 'thorough' else (4096, 65535, 65540):
        j = job('ds %d' % n, maxinst=400_000_000, maxtime=200)
        f = j.bits(8)
        def orc(job, path, n=n, f=f):
            if not path.runs[0].has('o.hex'):
                path.fail('no code file'); return
            fmt, got = image(path, path.runs[0].file('o.hex'))
            if fmt is None:
                return
            if len(got) != n + 1:
                path.fail('%d bytes instead of %d' % (len(got), n + 1)); return
            path.must(z3.And(*[z3.simplify(z3.And(a == 0x100 + i, b == (f.bv if i < n else 0x77))) for i, (a, b) in enumerate(got)]), 'bytes of the block')
        j.oracle = orc
        j.add(' cpu 6800\n * = $100\n ds %d,%s\n db $77\n' % (n, f))
        J.append(j)
    j = job('ds malformed')
    n = j.bits(4)
    bad = ['ds', 'ds -1', 'ds -1-%s' % n, 'ds a', 'ds x,1', 'ds ,1', 'ds 1,', 'ds 1,x', 'ds nosuch', 'ds 1,nosuch', 'ds 1,2,3', 'ds $80000000']
    J.append(finish(j, '6502', [L(' ' + t, 'error') for t in bad] + [L(' %s%s' % (d, o), 'error') for d in DIR for o in ('', ' ,', ' 1,', ' ,1', ' 1,,2', ' a', ' 1,x', ' nosuch', ' #1', ' 1 2')]))

    # ALIGN
    for cpu in ('6502', '6800', 'z80'):
        for m in ('even', 'odd', 'EVEN', '  Odd '):
            j = job('%s align %s' % (cpu, m.strip()))
            o = j.bits(15)
            src = [' cpu ' + cpu, ' * = ' + o.text, L('here align ' + m, None), L(' dw *', None), ' align ' + m, ' db 1']
            def orc(job, path, o=o, m=m.strip().lower(), cpu=cpu):
                a = z3.ZeroExt(17, o.bv)
                odd = z3.Extract(0, 0, o.bv) == 1
                k = split(path, odd)
                want = []
                for step in (2, 1):
                    if k != (m == 'odd'):
                        want.append((a, z3.BitVecVal(0, 8)))
                        a, k = a + 1, not k
                    if step == 2:
                        x = order(cpu, a, 2)
                        want += [(a, x[0]), (a + 1, x[1])]
                        a = a + 2
                want.append((a, z3.BitVecVal(1, 8)))
                if not path.runs[0].has('o.hex'):
                    path.fail('no code file'); return
                must_image(path, path.runs[0].file('o.hex'), [(z3.simplify(x), y) for x, y in want])
            j.oracle = orc
            j.add(source(src))
            J.append(j)
    j = job('align malformed')
    c = j.byte(b'abcdfghijklmnpqrstuvwxyz0123456789')
    J.append(finish(j, '6502', [L(' align ' + t, 'error') for t in ('', c.text, 'even' + c.text, 'odd' + c.text, c.text + 'ven', 'even,odd', '2')]))
    # nothing without an origin
    j = job('no org')
    c = j.bits(8)
    for t in ['%s %s' % (d, c) for d in DIR] + ['asc "a"', 'ds %s,1' % '3']:
        j = job('no org ' + t.split()[0])
        c = j.bits(8)
        def orc(job, path, t=t):
            check_lines(path, [' cpu 6502', L(' ' + t, 'error')], 0)
        j.oracle = orc
        j.add(' cpu 6502\n %s\n' % (t.split()[0] + ' ' + ('"a"' if t.startswith('asc') else '3,' + c.text if t.startswith('ds') else c.text)))
        J.append(j)
    return J
