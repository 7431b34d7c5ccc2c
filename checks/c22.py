"""C22: operands which do not fit - truncated with a warning or refused, never otherwise."""
import z3, isa6502, isa6800, isaz80, c01, c03
from tmpl import *
from asm import Listing, must_image, check_lines, source, show, L

BOUNDS = ('every instruction and operand form of each processor which takes a number, with all operand values of 16 bits, and of 32 bits when they stand for a label before or after them (offsets of (ix+d): 0..511, and 32 bits), written as constant, label, forward label or expression; lists of DB, DW, DDB and DL with 1 to 12 operands of 32 symbolic bits; '
          'DS initialisers; operands entirely in parentheses where these are no addressing mode; each with and without -s')
OUTSIDE = 'relative branches (C04); word operands of instructions beyond 16 bits get no warning (the manual says only that truncation might cause one)'
PARENS = {'6800': ['ldaa', 'staa', 'ldx', 'jmp', 'jsr', 'clr', 'subb', 'stx', 'cpx'], '6801': ['ldd', 'addd', 'std']}


def w16(v):
    return [hi(v), lo(v)]


def judge(path, lines, org, counts):
    """lines: L; counts: {index: fn(path) -> number of warnings}"""
    ls = check_lines(path, lines, org)
    for n, f in counts.items():
        row = ls.row(n)
        if row is not None and not row.errors:
            k = f(path)
            if len(row.warnings) != k:
                path.fail('line %d (%s): %d warnings instead of %d' % (n, show(lines[n - 1].text), len(row.warnings), k))


def lines6502(cpu, t, v, fw):
    big = z3.UGT(v, 255)
    r = []
    for m, modes, f in c01.pairs(cpu):
        a, b = isa6502.choose(modes, f, True, fw), isa6502.choose(modes, f, False, fw)
        if '{}' not in f or a is None and b is None:
            continue
        if f == '#{}':
            r.append(L(' %s #%s' % (m, t), [a[0], lo(v)], warn=warned(big)))
            continue
        def by(path, a=a, b=b):
            x = b if path.split(big) else a
            return 'error' if x is None else c01.enc(x, v)
        r.append(L(' %s %s' % (m, f.format(t)), by if a != b else c01.enc(a, v), warn=False))
    return r


def lines6800(cpu, t, v, fw):
    big = z3.UGT(v, 255)
    r = []
    for m, modes in isa6800.table(cpu).items():
        if 'imm' in modes:
            op, n = modes['imm']
            r.append(L(' %s #%s' % (m, t), [op] + ([lo(v)] if n == 1 else w16(v)), warn=warned(big) if n == 1 else False))
        if 'idx' in modes:
            # the manual: truncated with a warning; the program: refused.  Either is a report.
            r.append(L(' %s %s,x' % (m, t), lambda path, o=modes['idx'][0]: None if path.split(big) else [o, lo(v)], warn=False))
        if 'ext' in modes:
            e = [modes['ext'][0]] + w16(v)
            d = [modes['dir'][0], lo(v)] if 'dir' in modes and not fw else e
            r.append(L(' %s %s' % (m, t), (lambda path, d=d, e=e: e if path.split(big) else d) if d is not e else e, warn=False))
    return r


def jobs(tier):
    big_ = tier == 'thorough'
    J = []
    for style in ('bin', 'label', 'forward', 'expr'):
        W = 32 if style in ('label', 'forward') or big_ else 16
        for cpu, f in (('6500', lines6502), ('6502', lines6502), ('65C02', lines6502), ('6800', lines6800), ('6801', lines6800), ('6803', lines6800)):
            if cpu in ('6500', '6803') and not big_ and style != 'bin':
                continue
            j = job('%s %s' % (cpu, style), maxpaths=200)
            tx, v, pre, post = operand(j, style, W)
            ls = f(cpu, tx, v, style == 'forward')
            # lines which may be refused go into a program of their own
            two = [l for l in ls if callable(l.bytes)]
            one = [l for l in ls if not callable(l.bytes)]
            J.append(finish(j, cpu, one, pre, post))
            for k, ch in enumerate(chunks(two, 120)):
                j = job('%s %s either %d' % (cpu, style, k), maxpaths=200)
                tx, v, pre, post = operand(j, style, W)
                head = [' cpu ' + cpu] + pre + [' * = $1000']
                src = head + ch + post
                def orc(job, path, src=src, ch=ch, head=head, cpu=cpu, v=v):
                    if cpu.startswith('68') and path.split(z3.UGT(v, 255)):
                        ls = Listing(path.runs[0].listing)
                        for n, l in enumerate(src, 1):
                            row = ls.row(n)
                            if isinstance(l, L) and l.text.endswith(',x') and row is not None and not row.errors and not row.warnings:
                                path.fail('line %d (%s): truncated in silence' % (n, show(l.text)))
                        return
                    check_lines(path, src, 0x1000)
                j.oracle = orc
                j.add(source(src))
                J.append(j)
        # Z80
        j = job('z80 %s' % style, maxpaths=200)
        tx, v, pre, post = operand(j, style, W)
        D = j.bits(32 if style == 'label' else 9)
        ls = []
        for t, e, w in c03.all_lines((tx, v), (D.text, z3.Extract(7, 0, D.bv)), ('3', 3)):
            if e is None or w is None:
                continue
            c = []
            if '(ix+' in t or '(iy+' in t:
                c.append(z3.And(z3.UGT(D.bv, 127), z3.ULT(D.bv, 0xffffff80)) if D.bv.size() == 32 else z3.UGT(D.bv, 127))
            if '(ix-' in t or '(iy-' in t:
                c.append(z3.And(z3.UGT(D.bv, 128), z3.ULT(D.bv, 0xffffff81)) if D.bv.size() == 32 else z3.UGT(D.bv, 128))
            wide = any(z3.is_expr(x) and z3.eq(x, isaz80.hi(v)) for x in e)
            if not wide and any(z3.is_expr(x) and z3.eq(x, isaz80.lo(v)) for x in e):
                c.append(z3.UGT(v, 255))
            if not c and not wide:
                continue
            l = L(t, e, warn=warned(z3.Or(c)) if c else False)
            l.conds = c
            ls.append(l)
        for k, ch in enumerate(chunks(ls, 150)):
            j = job('z80 %s %d' % (style, k), maxpaths=200)
            tx, v, pre, post = operand(j, style, W)
            D = j.bits(32 if style == 'label' else 9)
            src = [' cpu z80'] + pre + [' * = $1000'] + ch + post
            cn = {n: (lambda path, l=l: sum(path.split(x) for x in l.conds)) for n, l in enumerate(src, 1) if isinstance(l, L)}
            j.oracle = lambda job, path, src=src, cn=cn: judge(path, src, 0x1000, cn)
            j.add(source(src))
            J.append(j)
    # lists: one warning for each operand which does not fit
    for cpu in ('6502', '6800', 'z80'):
        for d, n in (('db', 1), ('ddb', 2), ('dw', 2), ('dl', 4)):
            for k in (1, 2, 3) if not big_ else (1, 2, 3, 4):
                j = job('%s %s list of %d' % (cpu, d, k), maxpaths=300)
                V = [j.bits(32 if q == 0 else 17 if n == 2 else 9) for q in range(k)]
                ops, by, cs = [], [], []
                for q in range(k * (1 if k == 1 else 3)):
                    x = V[q % k]
                    b = z3.ZeroExt(32 - x.bv.size(), x.bv) if x.bv.size() < 32 else x.bv
                    ops.append((x.text, '5', x.text)[q // k])
                    y = b if q // k != 1 else z3.BitVecVal(5, 32)
                    o = order('6800' if (cpu in ('6502', 'z80')) == (d == 'ddb') else '6502', y, n)
                    by += o
                    cs.append(z3.UGE(y, 1 << 8 * n) if n < 4 else z3.BoolVal(False))
                src = [' cpu ' + cpu, ' * = $1000', L(' %s %s' % (d, ','.join(ops)), by, warn=None)]
                cn = {3: lambda path, cs=cs: sum(path.split(z3.simplify(c)) for c in cs)}
                j.oracle = lambda job, path, src=src, cn=cn: judge(path, src, 0x1000, cn)
                j.add(source(src))
                J.append(j)
    j = job('ds')
    v, n = j.bits(32), j.bits(3)
    src = [' cpu 6502', ' * = $1000', L(' ds 3,%s' % v, [z3.Extract(7, 0, v.bv)] * 3, warn=warned(z3.UGE(v.bv, 256))), L(' ds 1,%s+0' % v, [z3.Extract(7, 0, v.bv)], warn=warned(z3.UGE(v.bv, 256)))]
    j.oracle = lambda job, path, src=src: check_lines(path, src, 0x1000)
    j.add(source(src))
    J.append(j)
    # parentheses around the whole operand
    for cpu, ms in PARENS.items():
        for style in ('bin', 'label', 'forward', 'expr'):
            W = 32 if style in ('label', 'forward') or big_ else 16
            j = job('%s parentheses %s' % (cpu, style), maxpaths=200)
            tx, v, pre, post = operand(j, style, W)
            t = isa6800.table(cpu)
            ls = []
            for m in ms:
                e = [t[m]['ext'][0]] + w16(v)
                d = [t[m]['dir'][0], lo(v)] if 'dir' in t[m] and style != 'forward' else e
                by = e if d is e else lambda path, d=d, e=e, v=v: d if path.split(z3.ULT(v, 256)) else e
                ls += [L(' %s (%s)' % (m, tx), by, warn=True), L(' %s (%s)+0' % (m, tx), by, warn=False), L(' %s 0+(%s)' % (m, tx), by, warn=False)]
            J.append(finish(j, cpu, ls, pre, post))
    return J
