"""C02: 6800/6801/6803 instruction encoding."""
import random, z3, isa6800
from tmpl import *

BOUNDS = ('every documented instruction of the 6800, 6801 and 6803 in every operand form (#n, n, "n,x", ",x", none); operand written as binary constant, hexadecimal '
          'constant, label defined before or after use, label+offset, all 2^16 values (as a label 2^32) symbolic (2^8 for immediates of one byte and index displacements); a forward label in every operator, function and EQU; '
          'every instruction/operand-form pair the processor lacks, for all operand values; the 6801 instructions on a 6800; every bare mnemonic of 3 and (6801) 4 letters; good and refused lines in any order')
OUTSIDE = 'immediate operands and index displacements beyond 8 bits (C22); other spellings; relative branches (C04)'


def jobs(tier):
    r = []
    for cpu in ('6800', '6801', '6803'):
        t = isa6800.table(cpu)
        for style in STYLES:
            if cpu == '6803' and style in ('hex', 'expr') and tier == 'quick':
                continue
            fw = style == 'forward'
            # 16-bit operands
            j = job('%s %s any16' % (cpu, style))
            tx, v, pre, post = operand(j, style, 32 if style in ('label', 'forward') else 16)
            lines = []
            for m, modes in t.items():
                if 'rel' in modes:
                    continue
                if 'imp' in modes:
                    lines.append(L(' ' + m, [modes['imp'][0]]))
                    continue
                if 'imm' in modes and modes['imm'][1] == 2:
                    lines.append(L(' %s #%s' % (m, tx), [modes['imm'][0], hi(v), lo(v)]))
                e = [modes['ext'][0], hi(v), lo(v)]
                if 'dir' in modes and not fw:
                    d = [modes['dir'][0], lo(v)]
                    lines.append(L(' %s %s' % (m, tx), lambda path, d=d, e=e, v=v: d if path.split(z3.ULT(v, 256)) else e))
                else:
                    lines.append(L(' %s %s' % (m, tx), e))
            r.append(finish(j, cpu, lines, pre, post))
            # 8-bit operands
            j = job('%s %s any8' % (cpu, style))
            tx, v, pre, post = operand(j, style, 8)
            lines = []
            for m, modes in t.items():
                if 'imm' in modes:
                    lines.append(L(' %s #%s' % (m, tx), [modes['imm'][0]] + [0] * (modes['imm'][1] - 1) + [v]))
                if 'idx' in modes:
                    lines.append(L(' %s %s,x' % (m, tx), [modes['idx'][0], v]))
                    if style == 'bin':
                        lines.append(L(' %s ,x' % m, [modes['idx'][0], 0]))
            r.append(finish(j, cpu, lines, pre, post))
        # a label defined later keeps the extended form whatever it is combined with
        for m, op in (('ldaa', 0xB6), ('stx', 0xFF), ('subb', 0xF0)):
            j = job('%s forward expressions %s' % (cpu, m))
            V, S = j.bits(16), j.bits(3)
            lines = [L(' %s %s' % (m, t), [op, hi(x), lo(x)]) for t, x in forward_exprs(V.bv, S.bv)]
            r.append(finish(j, cpu, lines, ['e1 = val', 'e2 = e1'], ['val = ' + V.text, 'sv = ' + S.text]))
        # what the processor lacks
        j = job('%s refused' % cpu)
        V = j.bits(8)
        H = j.bits(8, prefix='')
        lines = []
        for m, modes in t.items():
            if 'rel' in modes:
                continue
            if 'imp' in modes:
                lines += [L(' %s %s' % (m, V.text), 'error'), L(' %s #%s' % (m, V.text), 'error'), L(' %s ,x' % m, 'error')]
            else:
                lines.append(L(' ' + m, 'error'))
                lines += [L(' %s %s,y' % (m, V.text), 'error'), L(' %s x' % m, 'error')]
                if 'imm' not in modes:
                    lines += [L(' %s #%s' % (m, V.text), 'error'), L(' %s #%s%s' % (m, V.text, H.text), 'error')]
        r.append(finish(j, cpu, lines))
        # good and refused lines in any order: none depends on those before
        good = []
        W = z3.Concat(V.bv, H.bv)
        for m, modes in t.items():
            if 'rel' in modes:
                continue
            if 'imp' in modes:
                good.append(L(' ' + m, [modes['imp'][0]]))
                continue
            if 'imm' in modes:
                good.append(L(' %s #%s' % (m, V.text), [modes['imm'][0]] + [0] * (modes['imm'][1] - 1) + [V.bv]))
            if 'idx' in modes:
                good.append(L(' %s %s,x' % (m, V.text), [modes['idx'][0], V.bv]))
            if 'ext' in modes:
                e, d = [modes['ext'][0], hi(W), lo(W)], [modes['dir'][0], lo(W)] if 'dir' in modes else None
                good.append(L(' %s %s%s' % (m, V.text, H.text), (lambda path, d=d, e=e, W=W: d if path.split(z3.ULT(W, 256)) else e) if d else e))
        for k in range(2 if tier == 'quick' else 10):
            j = job('%s mixed %d' % (cpu, k))
            j.bits(8), j.bits(8, prefix='')
            rnd = random.Random(k)
            mix = rnd.sample(good, min(len(good), 200)) + rnd.sample(lines, min(len(lines), 120))
            rnd.shuffle(mix)
            r.append(finish(j, cpu, mix))
        if cpu == '6800':
            j = job('6800 6801-only')
            V = j.bits(16)
            x = isa6800.table('6801')
            lines = []
            for m in isa6800.only01():
                lines.append(L(' %s%s' % (m, '' if 'imp' in x[m] else ' ' + V.text), 'error'))
            r.append(finish(j, cpu, lines))
        kn = {m: [x['imp'][0]] for m, x in t.items() if 'imp' in x}
        if cpu == '6803' and tier == 'quick':
            continue
        for n in (3, 4):
            for f in ('abcdefghijklm', 'nopqrstuvwxyz'):
                if n == 4 and cpu == '6800' and tier == 'quick':
                    continue
                r.append(anymnemonic(cpu, n, kn, f))
    return r
