"""C10: references to labels agree with their definitions."""
import z3, random
from tmpl import *
from recs import Prog, b32, add
from asm import must_image, Listing, image
from world import series, bounds

BOUNDS = ('labels on every kind of line (alone, instructions, each data directive, DS of 0..15 bytes symbolic, ALIGN, macro calls), referenced before and after; four labels with symbolic 12-bit gaps and origin, '
          'all references among them; 60 and 205 labels at a symbolic 16-bit origin; EQU redefined with symbolic values; chains of 1..6 EQU in any order of definition; programs whose size depends on labels '
          'defined later (DS, org, IF) with symbolic values: refused or consistent; undefined labels in every context; the star label')
BOUNDS += bounds('C10')
OUTSIDE = 'labels above 2^32-1'
CPUS = ('6502', '6800', 'z80')
NOP = {'6502': 0xEA, '6800': 0x01, 'z80': 0x00}
JMP = {'6502': ('jmp %s', 0x4C), '6800': ('jmp %s', 0x7E), 'z80': ('jp %s', 0xC3)}


def w(cpu, v):
    return order(cpu, b32(v), 2)


def jobs(tier):
    J = []
    for cpu in CPUS:
        for first in (True, False):
            j = job('%s kinds %s' % (cpu, 'referenced first' if first else 'defined first'), maxpaths=2000, maxtime=80)
            n, v, o = j.bits(2 if tier == 'quick' else 4), j.bits(8), j.bits(13)
            src = [' cpu ' + cpu, 'mac macro', ' db \\1,\\1', 'mx dw *', ' endm', 'never macro', ' endm', 'z = %s' % v, ' * = ' + o.text]
            names = ['l%d' % k for k in range(12)]
            refs = ' dw ' + ','.join(names)
            if first:
                src.append(refs)
            body = ['l0', 'l1 nop', 'l2 db z,2', 'l3 ds %s' % n, 'l4 dw l4', 'l5 align even', 'l6 mac z', 'l7 asc "abc"', 'l8 ddb 1', 'l9 dl 7 ; comment', 'l10 ; alone', 'l11 ' + JMP[cpu][0] % 'l11']
            src += body + [refs]
            def orc(job, path, n=n, v=v, o=o, cpu=cpu, first=first):
                k = path.which(n.bv, range(1 << n.bv.size()))
                a0 = b32(o.bv)
                pc = a0 + (24 if first else 0)
                odd = z3.Extract(0, 0, pc + 1 + 2 + k + 2) == 1
                od = split(path, odd)
                want, addr = [], []
                def put(*bs):
                    nonlocal pc
                    for b in bs:
                        want.append((z3.simplify(pc), b)); pc = z3.simplify(pc + 1)
                def here():
                    addr.append(pc)
                here(); here(); put(NOP[cpu]); here(); put(v.bv, 2); here(); put(*[0] * k); here(); put(*w(cpu, pc)); here()
                if od: put(0)
                here(); put(v.bv, v.bv); put(*w(cpu, pc)); here(); put(97, 98, 99); here(); put(*w(cpu, 1)[::-1]); here(); put(*order(cpu, z3.BitVecVal(7, 32), 4)); here(); here()
                x = pc
                put(JMP[cpu][1]); put(*w(cpu, x))
                tab = sum((w(cpu, a) for a in addr), [])
                tail = [(z3.simplify(pc + i), b) for i, b in enumerate(tab)]
                head = [(z3.simplify(a0 + i), b) for i, b in enumerate(tab)] if first else []
                if not path.runs[0].has('o.hex'):
                    path.fail('no code file'); return
                must_image(path, path.runs[0].file('o.hex'), head + want + tail)
            j.oracle = orc
            j.add(''.join(l + '\n' for l in src))
            j.expect_paths = 4
            J.append(j)
        # gaps
        for perm in range(3 if tier == 'quick' else 24):
            rnd = random.Random(perm)
            j = job('%s gaps %d' % (cpu, perm), maxpaths=900)
            g = [j.bits(8, prefix='%1') for _ in range(4)]
            for x in g:
                x.bv = z3.Concat(z3.BitVecVal(1, 1), x.bv)
            o = j.bits(14)
            p = Prog(j, 'HEX' if cpu == 'z80' else 'SCODE', cpu)
            p.org(o.text, o.bv)
            ops = [[rnd.randrange(4) for _ in range(3)] for _ in range(5)]
            lab, pc = [], b32(o.bv)
            for k in range(4):
                pc = pc + 2 * len(ops[k]) + b32(g[k].bv)
                lab.append(z3.simplify(pc))
                pc = pc + 3
            for k in range(5):
                p.lines.append(' dw ' + ','.join(('lab%d' if x % 2 else 'LAB%d') % x for x in ops[k]))
                for x in ops[k]:
                    for b in w(cpu, lab[x]):
                        p.put(b)
                if k < 4:
                    p.lines.append(' * = *+' + g[k].text)
                    p.pc = add(p.pc, b32(g[k].bv))
                    y = rnd.randrange(4)
                    p.raw('lab%d %s' % (k, JMP[cpu][0] % ('lab%d' % y)), [JMP[cpu][1]] + w(cpu, lab[y]))
            J.append(p.done())
        # star
        j = job('%s star' % cpu)
        o, v = j.bits(15), j.bits(6)
        a = b32(o.bv)
        x = [JMP[cpu][1]]
        p = Prog(j, 'HEX' if cpu == 'z80' else 'SCODE', cpu).org(o.text, o.bv)
        p.raw(' ' + JMP[cpu][0] % '*', x + w(cpu, a)).raw(' dw *+%s' % v, w(cpu, a + 3 + b32(v.bv))).raw('st = *').raw(' dl *-st', [0] * 4).raw('lb ' + JMP[cpu][0] % '*-lb+*', x + w(cpu, a + 9)).raw(' ds 5,1', [1] * 5)
        p.raw(' dw *', w(cpu, a + 17)).raw(' dw st', w(cpu, a + 5)).raw(' ds *-st-10,7', [7] * 6).raw(' dw *,1', w(cpu, a + 27) + w(cpu, 1))
        J.append(p.done())
        # EQU
        j = job('%s equ' % cpu)
        a, b, c = j.bits(16), j.bits(16), j.bits(16)
        p = Prog(j, 'HEX' if cpu == 'z80' else 'SCODE', cpu)
        p.raw('xx = %s' % a).raw('yy equ %s' % b).org('$100', 0x100)
        A, B, C = (b32(t.bv) for t in (a, b, c))
        def W(v):
            return w(cpu, v)
        p.raw(' dw xx,yy', W(A) + W(B)).raw('XX = %s' % c).raw(' dw XX,YY', W(C) + W(B)).raw('Yy = xx').raw('xX EQU xx+1').raw(' dw xx,yy', W(C + 1) + W(C)).raw(' dw fw', W(A))
        p.raw('xx=yy').raw(' dw xx', W(C)).raw('fw = %s' % a).raw(' dw fw', W(A))
        for k in range(5):
            p.raw('xx = xx+%s' % b).raw(' dw xx', W(C + (k + 1) * B))
        J.append(p.done())
    # EQU chains: the value of each is known once all are defined; in an order needing more than two passes the program is refused
    for n in (1, 2, 3, 6):
        for seed in range(4 if tier == 'quick' else 20):
            rnd = random.Random(100 * n + seed)
            j = job('equ chain %d #%d' % (n, seed))
            v = j.bits(16)
            ids = list(range(n))
            rnd.shuffle(ids)
            # e0 = v, e_k = e_{k-1}+3
            where = rnd.choice(('before', 'after', 'between'))
            defs = ['e0 = %s' % v] + ['e%d = e%d+3' % (k, k - 1) for k in range(1, n)]
            defs = [defs[k] for k in ids]
            use = [' dw e%d' % k for k in range(n)]
            if where == 'before':
                src = use + defs
            elif where == 'after':
                src = defs + use
            else:
                src = defs[:n // 2] + use + defs[n // 2:]
            def orc(job, path, n=n, v=v, defs=defs):
                r = path.runs[0]
                ls = Listing(r.listing)
                if ls.errors:
                    if r.has('o.hex'):
                        path.fail('code file in spite of errors')
                    if all(int(d.split()[0][1:]) == k for k, d in enumerate(defs)):
                        path.fail('a program with at most one level of forward references is refused: %s' % (ls.errors[0],))
                    return
                want = []
                for k in range(n):
                    want += order('6800', b32(v.bv) + 3 * k, 2)
                if not r.has('o.hex'):
                    path.fail('no code file'); return
                must_image(path, r.file('o.hex'), [(0x100 + i, x) for i, x in enumerate(want)])
            j.oracle = orc
            j.add(' cpu 6800\n * = $100\n' + ''.join(l + '\n' for l in src))
            J.append(j)
    # instructions whose size depends on what is known of their operand, with labels after them
    for cpu, ins in (('6502', [('lda %s', 0xA5, 0xAD), ('inc %s', 0xE6, 0xEE), ('ldx %s', 0xA6, 0xAE), ('and %s,x', 0x35, 0x3D)]), ('6800', [('ldaa %s', 0x96, 0xB6), ('stx %s', 0xDF, 0xFF), ('cmpb %s', 0xD1, 0xF1)])):
        for known in (True, False):
            j = job('%s sizes, operands %s' % (cpu, 'known' if known else 'forward'))
            o, a, b = j.bits(14, prefix='%01'), j.bits(8) if known else j.bits(16), j.bits(16, prefix='')
            base = z3.Concat(z3.BitVecVal(1, 2), o.bv)
            A = b32(a.bv)
            names = [('za', A), ('zb', A), ('za+0', A), ('zb|za', A), ('zc', A + 1), ('0+zb', A)]
            defs = ['za = %s' % a]
            p = Prog(j, 'SCODE', cpu)
            if known:
                p.raw(defs[0])
            p.raw('zb = za').raw('zc equ zb+1').org(o.text, base)
            if known:
                names = [n for n in names if n[0] != 'zc']
            n = 2 if known else 3
            start = p.pc
            labs, pc = [], start
            for k, (t, v) in enumerate(names):
                labs.append(z3.simplify(pc + 2))
                pc = pc + 2 + n
            for k, (t, v) in enumerate(names):
                f, d, e = ins[k % len(ins)]
                p.raw(' dw q%d' % ((k * 2 + 1) % len(names)), w(cpu, labs[(k * 2 + 1) % len(names)]))
                p.raw('q%d %s' % (k, f % t), [d, z3.Extract(7, 0, v)] if known else [e] + w(cpu, v))
            if not known:
                p.raw(defs[0])
            J.append(p.done())
    # many labels
    for n in (60, 205) if tier == 'quick' else (60, 205, 420):
        for cpu in CPUS:
            if n != 60 and cpu != '6800' and tier == 'quick':
                continue
            j = job('%s %d labels' % (cpu, n), maxpaths=400, maxinst=300_000_000, maxtime=150)
            o = j.bits(10, prefix='%01')
            base = z3.Concat(z3.BitVecVal(1, 2), o.bv)
            rnd = random.Random(n)
            names = ['%s%d' % (rnd.choice(('a', 'Zz', 'm.', '_', 'label')), k) for k in range(n)]
            rnd.shuffle(names)
            p = Prog(j, 'HEX' if cpu == 'z80' else 'SCODE', cpu).org(o.text, base)
            pc0 = p.pc
            at = {x: z3.simplify(pc0 + 5 * k) for k, x in enumerate(names)}
            for k, x in enumerate(names):
                y, z = names[(k * 7 + 3) % n], names[(k * 11 + 5) % n]
                p.raw('%s dw %s' % (x, y), w(cpu, at[y])).raw(' db %d' % (k & 255), [k & 255]).raw(' dw %s' % z.upper(), w(cpu, at[z]))
            J.append(p.done())
    # sizes which depend on labels defined later
    late = [(' ds n', 'DS'), (' ds n,5', 'DS fill'), (' * = *+n', 'org'), (' * = n+$200', 'org at'), (' ds n-n', 'DS of zero')]
    for t, nm in late:
        for cpu in CPUS:
            j = job('%s late %s' % (cpu, nm), maxpaths=100)
            v = j.bits(4)
            src = ' cpu %s\n * = $100\n dw lab\n%s\nlab db $77\n dw lab\nn = %s\n' % (cpu, t, v)
            def orc(job, path, cpu=cpu):
                r = path.runs[0]
                ls = Listing(r.listing)
                if ls.errors:
                    if r.has('o.hex'):
                        path.fail('code file in spite of errors')
                    return
                if not r.has('o.hex'):
                    path.fail('no code file'); return
                fmt, got = image(path, r.file('o.hex'))
                if fmt is None:
                    return
                row = ls.row(5)
                a = got[-3][0]
                for (x, b), e in zip(got[:2] + got[-2:], w(cpu, a) * 2):
                    path.must(z3.simplify(b == e), 'reference to a label whose address changed')
                path.must(z3.simplify(got[-3][1] == 0x77), 'labelled byte')
            j.oracle = orc
            j.add(src)
            J.append(j)
    j = job('late if')
    v = j.bits(4)
    J.append(finish(j, '6800', [L(' if n', 'error'), ' endc', L(' if n=1', 'error'), ' endc', L(' if 1<n', 'error'), ' endc'], post=['n = ' + v.text]))
    # undefined labels
    for cpu in CPUS:
        j = job('%s undefined' % cpu)
        v = j.bits(8)
        lines = [L(' %s nosuch' % d, 'error') for d in ('db', 'dw', 'ddb', 'dl', 'ds', 'skip')] + [L(' ds 1,nosuch', 'error'), L(' db 1,2,nosuch', 'error'), L(' db nosuch+%s' % v, 'error'), L(' db -nosuch', 'error'), L(' dw (nosuch)', 'error')]
        lines += [L('q = nosuch+1', 'error'), L(' dw q', 'error'), L(' * = nosuch', 'error'), L(' if nosuch', 'error'), ' endc', L(' ' + JMP[cpu][0] % 'nosuch', 'error'), L(' dw .nosuch', 'error'), L(' dw know', 'error'), L(' dw known1', 'error'), 'known = 1']
        J.append(finish(j, cpu, lines))
    # a label defined twice
    j = job('twice')
    v = j.bits(8)
    lines = ['a1 db %s' % v, L('a1 db 2', 'error'), L('A1', 'error'), L('a1 = 4', 'error'), L('* db 1', 'error'), 'b1 = %s' % v, L('b1 db 1', 'error'), L('b1', 'error'), 'b1 = 2', ' dw c1', 'c1 = 1', L('c1 = 2', 'error'), L('c1 db 1', 'error')]
    J.append(finish(j, '6800', lines))
    # several forward references and the definition in another section of the source
    j = job('across sections')
    v = j.bits(8)
    p = Prog(j, 'SCODE', '6800')
    p.org('$200', 0x200).raw(' dw ina,inm,dum,after', w('6800', 0x20A) + w('6800', 0x20B) + w('6800', 0x41) + w('6800', 0x20C)).raw(' if 1').raw(' dw ina', w('6800', 0x20A)).raw('ina nop', [1]).raw(' else').raw('ina ds 5').raw(' endc')
    p.raw('def macro').raw('\\1 db \\2').raw(' endm').raw(' def inm,%s' % v, [v.bv])
    p.raw('after dw after', w('6800', 0x20C)).raw(' dummy').org('$40', 0x40).raw(' db 1').raw('dum dw inm').raw(' code').org('$300', 0x300).raw(' dw dum,inm', w('6800', 0x41) + w('6800', 0x20B))
    J.append(p.done())
    J += series('C10', tier)
    return J
