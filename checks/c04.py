"""C04: relative branches."""
import z3, isa6502, isa6800
from asm import must_image
from tmpl import *

BOUNDS = ('every relative branch of the 6500/6502/65C02, 6800/6801/6803 and Z80 (djnz, jr, jr cc): target *+v and *-v, v 16 bits symbolic; origin and target both 16-bit symbolic '
          'for one branch at a time; targets given by labels before and after the branch over a symbolic gap of 0..65535 bytes')
OUTSIDE = 'targets of more than 16 bits; branches which would wrap around the end of the address space are expected to be refused'


def branches(cpu):
    if cpu.startswith('65'):
        return {m: x['rel'] for m, x in isa6502.table(cpu).items() if 'rel' in x}
    if cpu.startswith('68'):
        return {m: x['rel'][0] for m, x in isa6800.table(cpu).items() if 'rel' in x}
    return {'djnz': 0x10, 'jr': 0x18, 'jr nz,': 0x20, 'jr z,': 0x28, 'jr nc,': 0x30, 'jr c,': 0x38}


def s32(v):
    return z3.ZeroExt(32 - v.size(), v) if v.size() < 32 else v


def inrange(d):
    """d: 32-bit displacement"""
    return z3.And(d >= -128, d <= 127)


def lineof(path, op, d):
    return [op, z3.Extract(7, 0, d)] if path.split(inrange(d)) else 'error'


def jobs(tier):
    J = []
    cpus = ('6500', '6502', '65C02', '6800', '6801', '6803', 'z80')
    for cpu in cpus:
        B = branches(cpu)
        # origin anywhere
        for sign in '+-':
            j = job('%s *%sv' % (cpu, sign))
            V = j.bits(16)
            v = s32(V.bv)
            lines = []
            for m, op in B.items():
                d = (v if sign == '+' else -v) - 2
                lines.append(L(' %s *%s%s' % (m, sign, V.text), lambda path, op=op, d=d: lineof(path, op, d)))
            J.append(finish(j, cpu, lines, org=0x8000))
        # absolute origin and target
        ms = sorted(B)
        some = ms if tier == 'thorough' else ms[:1] + ms[-1:]
        for m in some:
            j = job('%s %s origin and target' % (cpu, m.replace(' ', '-').strip(',')))
            O, T = j.bits(16), j.bits(16)
            d = s32(T.bv) - s32(O.bv) - 2
            lines = [' cpu ' + cpu, ' * = ' + O.text, L(' %s %s' % (m, T.text), lambda path, op=B[m], d=d: lineof(path, op, d))]
            def orc(job, path, lines=lines, O=O):
                check_lines(path, lines, s32(O.bv))
            j.oracle = orc
            j.add(source(lines))
            J.append(j)
            # labels on both sides of a gap
            j = job('%s %s labels' % (cpu, m.replace(' ', '-').strip(',')))
            G = j.bits(16)
            g = s32(G.bv)
            op = B[m]
            src = ' cpu %s\n * = $100\nback %s fwd\n * = *+%s\nfwd %s back\n' % (cpu, m, G.text, m)
            def orc(job, path, op=op, g=g):
                ls = Listing(path.runs[0].listing)
                fd, bd = g, -(g + 2) - 2
                f, b = split(path, inrange(fd)), split(path, inrange(bd))
                for n, c, w in ((3, f, 'forward'), (5, b, 'backward')):
                    row = ls.row(n)
                    if row is None:
                        path.fail('line %d missing' % n); return
                    if bool(row.errors) != (not c):
                        path.fail('%s branch %s' % (w, 'in range refused' if c else 'out of range accepted')); return
                if f and b:
                    if not path.runs[0].has('o.hex'):
                        path.fail('no code file'); return
                    must_image(path, path.runs[0].file('o.hex'), [(0x100, op), (0x101, z3.Extract(7, 0, fd)), (0x102 + g, op), (0x103 + g, z3.Extract(7, 0, bd))])
                elif path.runs[0].has('o.hex'):
                    path.fail('code file although a branch is out of range')
            j.oracle = orc
            j.add(src)
            J.append(j)
        # instructions around a branch keep their place whether or not it is in range
    j = job('z80 jr conditions')
    V = j.bits(3)
    J.append(finish(j, 'z80', [L(' jr %s,*+%s' % (c, V.text), 'error') for c in ('po', 'pe', 'p', 'm', 'a', '0')] +
                    [L(' djnz nz,*', 'error'), L(' djnz', 'error'), L(' jr', 'error'), L(' jr c', 'error'), L(' jr (hl)', 'error'), L(' djnz b', 'error')]))
    for cpu in ('6502', '6800'):
        j = job('%s branch operands' % cpu)
        V = j.bits(4)
        J.append(finish(j, cpu, [L(' %s%s' % (m, o), 'error') for m in branches(cpu) for o in ('', ' #' + V.text, ' %s,x' % V.text, ' x')]))
    return J
