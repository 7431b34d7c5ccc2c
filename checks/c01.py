"""C01: 6500/6502/65C02 instruction encoding."""
import random, z3, isa6502
from sx import Job
from asm import L, source, check_lines
from tmpl import forward_exprs, anymnemonic

BOUNDS = ('every documented instruction of the 6500, 6502 and 65C02 in every operand form (including the @ notation); operand written as a 16-bit '
          'binary constant, a hexadecimal constant, a label defined before or after use, or label+offset, all 2^16 values (as a label 2^32) symbolic (2^8 for forms limited to page zero); a forward label in every operator, function and EQU; '
          'every instruction/operand-form pair the processor lacks, for all operand values; mnemonics: every 3-letter name (65C02 also 2 and 4 letters); good and refused lines in any order')
OUTSIDE = 'immediate operands beyond 8 bits (C22); other spellings of the operand; relative branches (C04)'


def lo(v):
    return z3.Extract(7, 0, v)


def hi(v):
    return z3.Extract(15, 8, v)


def enc(c, v):
    op, n = c
    return [op] + ([lo(v)] if n >= 1 else []) + ([hi(v)] if n == 2 else [])


def pairs(cpu):
    t = isa6502.table(cpu)
    for m in sorted(t):
        if 'rel' in t[m]:
            continue
        for f in isa6502.FORMS:
            yield m, t[m], f


def small(path, v):
    return path.split(z3.ULT(v, 256))


def mkjob(name, cpu, lines, pre=(), post=(), org=0x1000, **kw):
    lines = [' cpu %s' % cpu] + list(pre) + [' * = $%x' % org] + lines + list(post)
    def oracle(job, path):
        check_lines(path, lines, org)
    j = kw.pop('job') if 'job' in kw else Job(name, oracle)
    j.name, j.oracle = name, oracle
    j.add(source(lines))
    return j


def job(name):
    return Job(name, None)


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def jobs(tier):
    r = []
    for cpu in ('6500', '6502', '65C02'):
        P = list(pairs(cpu))
        for style in ('bin', 'hex', 'label', 'expr', 'forward'):
            if style in ('hex', 'expr') and cpu == '6500':
                continue
            # operands valid for any 16-bit value
            j = job('%s %s any16' % (cpu, style))
            pre, post = [], []
            fw = style == 'forward'
            if style == 'hex':
                V = j.hexnum(4)
                v, t = V.bv, V.text
            else:
                V = j.bits(32 if style in ('label', 'forward') else 16)
                v, t = V.bv, V.text
                if style == 'label':
                    pre, t = ['val = ' + V.text], 'val'
                elif style == 'expr':
                    pre, t = ['val = ' + V.text], 'val+1-1'
                elif fw:
                    post, t = ['val = ' + V.text], 'val'
            lines = []
            for m, modes, f in P:
                a, b = isa6502.choose(modes, f, True, fw), isa6502.choose(modes, f, False, fw)
                if a is None or b is None or f == '#{}':
                    continue
                def by(path, a=a, b=b, v=v):
                    return enc(a if small(path, v) else b, v)
                if a == b:
                    by = enc(a, v)
                lines.append(L(' %s %s' % (m, f.format(t)), by, warn=None))
            r.append(mkjob(j.name, cpu, lines, pre, post, job=j))
            # forms that exist for page zero operands only, and immediates
            if style == 'forward':
                # a forward operand is taken to be 16 bits wide: forms with no 16-bit version are refused
                j = job('%s forward imm' % cpu)
                V = j.bits(8)
                lines = [L(' %s #val' % m, enc(isa6502.choose(modes, f, True), z3.ZeroExt(8, V.bv)), warn=None) for m, modes, f in P if f == '#{}' and 'imm' in modes]
                r.append(mkjob(j.name, cpu, lines, [], ['val = ' + V.text], job=j))
                continue
            j = job('%s %s any8' % (cpu, style))
            V = j.hexnum(2) if style == 'hex' else j.bits(8)
            t = V.text
            pre = []
            if style == 'label':
                pre, t = ['val = ' + V.text], 'val'
            elif style == 'expr':
                pre, t = ['val = ' + V.text], 'val+1-1'
            v8 = z3.ZeroExt(8, V.bv)
            lines = []
            for m, modes, f in P:
                a, b = isa6502.choose(modes, f, True), isa6502.choose(modes, f, False)
                if a is None or (b is not None and f != '#{}'):
                    continue
                lines.append(L(' %s %s' % (m, f.format(t)), enc(a, v8), warn=None))
            r.append(mkjob(j.name, cpu, lines, pre, job=j))
        # a label defined later keeps the long form whatever it is combined with
        for m, f, op in (('lda', '{}', 0xAD), ('sty', '{}', 0x8C), ('cmp', '{},x', 0xDD), ('ldx', '{},y', 0xBE), ('inc', '{}', 0xEE)):
            j = job('%s forward expressions %s %s' % (cpu, m, f))
            V, S = j.bits(16), j.bits(3)
            lines = [L(' %s %s' % (m, f.format(t)), enc((op, 2), x), warn=None) for t, x in forward_exprs(V.bv, S.bv)]
            r.append(mkjob(j.name, cpu, ['e1 = val', 'e2 = e1'] + lines, [], ['val = ' + V.text, 'sv = ' + S.text], job=j))
        # combinations the processor lacks
        bad = [(m, modes, f) for m, modes, f in P]
        for k, ch in enumerate(chunks(bad, 140)):
            j = job('%s refused 8-bit %d' % (cpu, k))
            V = j.bits(8)
            lines = [L(' %s %s' % (m, f.format(V.text)), 'error') for m, modes, f in ch if isa6502.choose(modes, f, True) is None]
            if lines:
                r.append(mkjob(j.name, cpu, lines, job=j))
            j = job('%s refused 16-bit %d' % (cpu, k))
            V = j.bits(8)
            H = j.bits(8, prefix='')
            # 256..65535: high byte made nonzero by the oracle's view of the path
            v = z3.Concat(V.bv, H.bv)
            txt = V.text + H.text
            def by(path, v=v):
                return 'error' if path.split(z3.UGE(v, 256)) else None
            lines = [L(' %s %s' % (m, f.format(txt)), by) for m, modes, f in ch if isa6502.choose(modes, f, False) is None and '{}' in f and f != '#{}']
            if lines:
                lines16 = [' cpu %s' % cpu, ' * = $1000'] + lines
                def orc(job, path, lines16=lines16):
                    check_lines(path, lines16, 0x1000, codefile=None)
                j.oracle = orc
                j.add(source(lines16))
                r.append(j)
        # good and refused lines in any order: none depends on those before
        for k in range(2 if tier == 'quick' else 10):
            rnd = random.Random(k)
            j = job('%s mixed %d' % (cpu, k))
            W, V = j.bits(16), j.bits(8)
            w8, lines = z3.ZeroExt(8, V.bv), []
            for m, modes, f in P:
                a, b = isa6502.choose(modes, f, True), isa6502.choose(modes, f, False)
                if a is None:
                    lines.append(L(' %s %s' % (m, f.format(V.text)), 'error'))
                else:
                    lines.append(L(' %s %s' % (m, f.format(V.text)), enc(a, w8), warn=None))
                if a is not None and b is not None and '{}' in f and f != '#{}':
                    lines.append(L(' %s %s' % (m, f.format(W.text)), (lambda path, a=a, b=b: enc(a if small(path, W.bv) else b, W.bv)) if a != b else enc(a, W.bv), warn=None))
            r.append(mkjob(j.name, cpu, rnd.sample(lines, 320), job=j))
        # no operand where one is needed, stray operand where none is allowed
        t = isa6502.table(cpu)
        if cpu == '6500':
            j = job('6500 ror')
            V = j.bits(16)
            r.append(mkjob(j.name, cpu, [L(' ror ' + x, 'error') for x in ('', 'a', V.text, V.text + ',x')], job=j))
        if cpu != '65C02':
            j = job('%s CMOS only mnemonics' % cpu)
            V = j.bits(8)
            new = [m for m in isa6502.CMOS if m not in isa6502.BASE]
            r.append(mkjob(j.name, cpu, [L(' %s%s' % (m, '' if 'imp' in isa6502.CMOS[m] else ' ' + V.text), 'error') for m in new], job=j))
    # every three-letter mnemonic
    for cpu in ('6502', '65C02') + (('6500',) if tier == 'thorough' else ()):
        for first in ('abcdefghijklm', 'nopqrstuvwxyz'):
            t = isa6502.table(cpu)
            j = job('%s any mnemonic %s-%s' % (cpu, first[0], first[-1]))
            a = j.byte(first.encode())
            b = j.byte(range(97, 123)); c = j.byte(range(97, 123))
            w = z3.Concat(a.bv, b.bv, c.bv)
            known = {m: t[m]['imp'] for m in t if 'imp' in t[m]}
            known.update({m: t[m]['acc'] for m in t if 'acc' in t[m]})
            code = lambda m: z3.BitVecVal(int.from_bytes(m.encode(), 'big'), 24)
            pseudo = ['equ', 'asc', 'nam']
            def orc(job, path, w=w, known=known, code=code):
                from asm import Listing
                ls = Listing(path.runs[0].listing)
                row = ls.row(3)
                isk = z3.Or(*[w == code(m) for m in known])
                other = z3.And(w != code('end'), *[w != code(m) for m in ()])
                if row is None:
                    path.must(z3.Not(isk), 'line missing'); return
                if row.errors:
                    path.must(z3.Not(isk), 'a mnemonic of the processor is refused')
                    return
                bs, ok = row.bytes()
                if len(bs) == 1:
                    e = z3.BitVecVal(0, 8)
                    for m, o in known.items():
                        e = z3.If(w == code(m), z3.BitVecVal(o, 8), e)
                    path.must(z3.And(isk, bs[0] == e), 'opcode of a bare mnemonic, or an unknown mnemonic accepted')
                elif len(bs):
                    path.fail('a bare three-letter mnemonic gives %d bytes' % len(bs))
                else:
                    path.must(z3.Not(isk), 'a mnemonic of the processor gives no code')
            j.oracle = orc
            j.add(' cpu %s\n * = $1000\n %s%s%s\n' % (cpu, a.text, b.text, c.text))
            j.expect_paths = 20
            r.append(j)
    for n in (2, 4):
        for f in ('abcdefghijklm', 'nopqrstuvwxyz'):
            t = isa6502.table('65C02')
            j = anymnemonic('65C02', n, {m: [t[m]['imp'] if 'imp' in t[m] else t[m]['acc']] for m in t if 'imp' in t[m] or 'acc' in t[m]}, f)
            r.append(j)
    return r
