"""C12: conditional assembly."""
import z3, random
from tmpl import *
from recs import Prog, b32
from asm import must_image, Listing
from world import series, bounds

BOUNDS = ('each comparison operator, with and without blanks, between expressions over two symbolic values (16 bits; 31 bits; negative), the single-expression and the empty form; random trees of IF/ELSE/ENDC with up to 5 symbolic '
          'conditions and 40 IFs, nested up to 24 deep, every outcome of all conditions; skipped parts holding definitions, directives, macro definitions and calls, INCLUDE, FAIL and nested IFs; conditions on labels, the star '
          'label and macro arguments; IF inside macros and included files and around them; misplaced ELSE and ENDC')
BOUNDS += bounds('C12')
OUTSIDE = 'comparisons of values of more than 32 bits (the manual promises 32-bit evaluation); skipped lines which hold an IF, ELSE, ENDC or MACRO in a wrong form; misplaced ELSE inside macros'
OPS = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<>': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def decide(path, c):
    if c is True or c is False:
        return c
    return split(path, c)


def render(tree, out):
    for t in tree:
        if t[0] == 'raw':
            out.append(t[1])
        elif t[0] == 'if':
            out.append(' if ' + t[1])
            render(t[3], out)
            if t[4] is not None:
                out.append(' else')
                render(t[4], out)
            out.append(' endc')


def effect(path, tree, out):
    for t in tree:
        if t[0] == 'raw':
            out += t[2]
        elif t[0] == 'if':
            if decide(path, t[2]):
                effect(path, t[3], out)
            elif t[4] is not None:
                effect(path, t[4], out)


def db(k):
    return ('raw', ' db %d' % k, [k])


def treejob(name, tree, pre=(), cpu='6800', j=None, org=0x1000, **kw):
    lines = [' cpu ' + cpu] + list(pre) + [' * = $%x' % org]
    render(tree, lines)
    def orc(job, path):
        r = path.runs[0]
        ls = Listing(r.listing)
        if ls.errors:
            path.fail('refused: %s' % (ls.errors[0],)); return
        want = []
        effect(path, tree, want)
        if not r.has('o.hex'):
            if want:
                path.fail('no code file')
            return
        must_image(path, r.file('o.hex'), [(org + i, b) for i, b in enumerate(want)])
    j.oracle = orc
    j.add(dict({'a.asm': ''.join(l + '\n' for l in lines)}, **kw))
    return j


def jobs(tier):
    J = []
    # comparisons
    for nm, bits, mk in (('16 bits', 16, lambda t: t), ('31 bits', 31, lambda t: t), ('signed', 16, None)):
        for sp in ('', ' ', '  '):
            if sp == '  ' and tier == 'quick':
                continue
            j = job('compare %s %r' % (nm, sp), maxpaths=200)
            a, b = j.bits(bits), j.bits(bits)
            A, B = z3.ZeroExt(40 - bits, a.bv), z3.ZeroExt(40 - bits, b.bv)
            ta, tb = 'va', 'vb'
            if nm == 'signed':
                A, B, ta, tb = A - 32768, B - 32768, '(va-32768)', 'vb-32768'
            tree = []
            for k, (o, f) in enumerate(OPS.items()):
                tree.append(('if', '%s%s%s%s%s' % (ta, sp, o, sp, tb), f(A, B), [db(k + 1)], [db(k + 101)]))
                tree.append(('if', '%s%s%s%s%s+1 ; a<b' % (ta, sp, o, sp, tb), f(A, B + 1), [db(k + 21)], None))
            tree.append(('if', ta, A != 0, [db(90)], [db(91)]))
            tree.append(('if', tb + ' ', B != 0, [], [db(92)]))
            tree.append(('if', '', False, [db(93)], [db(94)]))
            tree.append(('if', ' ; va', False, [db(95)], None))
            J.append(treejob('', tree, ['va = ' + a.text, 'vb = ' + b.text], j=j))
    j = job('operators in conditions', maxpaths=200)
    a = j.bits(4)
    A = z3.ZeroExt(36, a.bv)
    tree = [('if', t, c, [db(k)], [db(k + 100)]) for k, (t, c) in enumerate([
        ('va<<1', A != 0), ('va<<1 > 14', A > 7), ('va>>1<3', (A >> 1) < 3), ('4<va<<1', A > 2), ('(va<<1)=6', A == 3), ('va>>2', A > 3), ('va<<1<>va<<1', False), ('1<<va>=64', A >= 6), ('1<<va <= 64', A <= 6),
        ("'<'=va+60", A == 0), ("va+'='>65", A > 4), ("'a'+va!='c'", A != 2), ("va+1==';'-50", A == 8), ('(va+1)*2 = 6', A == 2), ('va-8', A != 8), ('-va<0', A > 0), ('~va=-5', A == 4), ('-va', A != 0), ('va-3 >= -1', A >= 2), ('va&1', z3.Extract(0, 0, a.bv) == 1), ('LO(va) = HI(va*256)', True)])]
    J.append(treejob('', tree, ['va = ' + a.text], j=j))
    # random trees
    n = 14 if tier == 'quick' else 80
    for seed in range(n):
        rnd = random.Random(seed)
        j = job('tree %d' % seed, maxpaths=100)
        cs = [j.bits(1) for _ in range(5)]
        count, cnt = [0], [0]
        def build(depth):
            out = []
            for _ in range(rnd.randrange(1, 4)):
                cnt[0] += 1
                if depth < rnd.randrange(2, 9) and count[0] < 40 and rnd.random() < 0.7:
                    count[0] += 1
                    k = rnd.randrange(5)
                    c = z3.Extract(0, 0, cs[k].bv) == 1
                    t, cc = rnd.choice([('v%d' % k, c), ('v%d=0' % k, z3.Not(c)), ('v%d>0' % k, c), ('0<>v%d' % k, c), ('1', True), ('0', False), ('v%d<2' % k, True), ('', False), ('v%d>=1' % k, c)])
                    th = build(depth + 1)
                    el = build(depth + 1) if rnd.random() < 0.6 else None
                    out.append(('if', t, cc, th, el))
                else:
                    out.append(db(cnt[0] & 127))
            return out
        tree = []
        while count[0] < 12:
            tree += build(0)
        J.append(treejob('', tree, ['v%d = %s' % (k, c.text) for k, c in enumerate(cs)], j=j))
    # deep nesting
    for depth in (5, 24):
        for side in (0, 1, 2):
            j = job('depth %d/%d' % (depth, side), maxpaths=200)
            v = j.bits(5)
            tree = [db(99)]
            for k in range(depth - 1, -1, -1):
                inner = [db(k)] + tree + [db(k + 50)]
                c = z3.UGT(v.bv, k)
                tree = [('if', 'v>%d' % k, c, inner, [db(k + 100)])] if side == 0 else [('if', 'v<=%d' % k, z3.Not(c), [db(k + 100)], inner)] if side == 1 or k % 2 else [('if', 'v>%d' % k, c, inner, None)]
            J.append(treejob('', tree, ['v = ' + v.text], j=j))
    # what a skipped part must not do
    skipped = ['lab db 1', 'e = 5', 'e equ 6', ' * = $4000', ' ds 100', ' dw nosuch', ' cpu 6502', ' dummy', ' code', ' fail no', ' include nosuch.inc', ' include inc', ' m 1', 'm2 macro', ' db 1', ' endm', ' asc "x"', ' align odd', ' db 1,2,3', ' if nosuch',
               ' db 4', ' else', ' db 5', ' endc', ' ldaa #1', ' list off', ' output hex', ' nam x', ' if', ' if 1', ' db 9', ' endc', ' else', ' endc', ' db +', '.loc db 1', ' db 400', ' exitm', 'lab2', ' nosuch', ' nosuch 1,2', 'lab3 nosuch "x"', ' ld a,5', ' lda #5', ' m2 7', ' -', '1abc db 1', 'a-b', 'a+b = 3', '$5', ' db "', ' nosuch \\q', ' ex af,af\'', '(what',
               ' equ 4', ' equ', 'foo page 60', 'foo nam x', 'foo list on', 'foo mlist off', 'foo clist', 'foo skip 3', 'foo cpu z80', 'foo output hex', 'foo code', 'foo dummy 1', 'foo fail', 'foo include inc', ' include', 'foo exitm', ' exitm 5', ' endm 3', 'foo endm', 'foo bar baz', 'foo foo', ' ', '; x', '= 5', ' =', '*', ' * =', 'm = 3', 'db = 4', 'hl = 2', 'lab', 'lab equ', ' equ equ equ']
    for neg in (0, 1):
        j = job('skipped part %s' % ('ELSE' if neg else 'IF'))
        v, e = j.bits(1), j.bits(8)
        cond = (z3.Extract(0, 0, v.bv) == 1)
        sk = [('raw', t, [0]) for t in skipped]
        tree = [('raw', 'e = %s' % e, []), db(1), ('if', 'v', True, [db(2)], sk) if neg else ('if', '', False, sk, [db(3)]), ('raw', ' db e', [e.bv]), ('raw', 'lab db 7', [7]), ('raw', 'lab2 ldaa #e', [0x86, e.bv]), ('raw', ' m e', [e.bv, 77]), ('raw', '.loc = 2', []), ('raw', ' db .loc', [2])]
        if neg:
            tree[2] = ('if', 'v', cond, [db(2)], None)
            tree.insert(3, ('if', '1', True, [db(4)], sk))
        j = treejob('', tree, ['m macro', ' db \\1,77', ' endm', 'v = ' + v.text], j=j, **{'inc': ' db 8\nlab = 3\n'})
        J.append(j)
    # conditions on labels, star, macro arguments; IF in macros, includes, around them
    j = job('labels and star', maxpaths=100)
    o, v = j.bits(8), j.bits(4)
    O = z3.ZeroExt(32, o.bv)
    V = z3.ZeroExt(36, v.bv)
    tree = [('raw', ' * = $1000+%s' % o, []), ('raw', 'st', []), ('if', '*>$1080', O > 0x80, [('raw', ' * = $2000', [])], [('raw', ' * = $2000', [])]), ('raw', 'l1 db v', [z3.ZeroExt(4, v.bv)]), ('if', '*-l1=1', True, [db(1)], [db(2)]), ('if', 'l1<st', False, [db(3)], [db(4)]),
            ('if', 'st-$1000 >= $41', O >= 0x41, [db(5)], [db(6)]), ('if', 'v=*-l1', V == 4, [db(7)], [db(8)]), ('raw', 'v = v+1', []), ('if', 'v=16', V == 15, [db(9)], [db(10)])]
    J.append(treejob('', tree, ['v = ' + v.text], j=j, org=0x2000))
    J[-1].runs[0].files['a.asm'] = J[-1].runs[0].files['a.asm'].replace(' * = $2000\n', '', 1)
    j = job('macros and includes', maxpaths=100)
    v, w = j.bits(2), j.bits(2)
    V, W = z3.ZeroExt(38, v.bv), z3.ZeroExt(38, w.bv)
    pre = ['v = ' + v.text, 'w = ' + w.text, 'sel macro', ' if \\1=1', ' db 10', ' else', ' if \\1 > \\2', ' db 20', ' endc', ' if v', ' db 30', ' else', ' db 40', ' endc', ' endc', ' db \\#', ' endm',
           'two macro', ' if \\1', ' sel \\1,w', ' else', ' sel w,\\1', ' endc', ' endm']
    def sel(a, b):
        return [('if', '', a == 1, [db(10)], [('if', '', a > b, [db(20)], None), ('if', '', V != 0, [db(30)], [db(40)])]), ('raw', '', [2])]
    def two(a):
        return [('if', '', a != 0, sel(a, W), sel(W, a))]
    body = sel(V, W) + sel(W, V) + two(V) + [('if', '', W > 1, two(W), [db(5)])] + [('if', '', V == 2, [db(8), ('if', '', W == 3, [db(9)], [db(11)])], None)] + [('if', '', V < W, [db(60)], [db(61)])]
    lines = [' cpu 6800'] + pre + [' * = $1000', ' sel v,w', ' sel w,v', ' two v', ' if w>1', ' two w', ' else', ' db 5', ' endc', ' if v=2', ' include inc', ' endc', ' if v<w', 'kind macro', ' db 60', ' endm', ' else', 'kind macro', ' db 61', ' endm', ' endc', ' kind']
    def orc(job, path, body=body):
        r = path.runs[0]
        ls = Listing(r.listing)
        if ls.errors:
            path.fail('refused: %s' % (ls.errors[0],)); return
        want = []
        effect(path, body, want)
        must_image(path, r.file('o.hex'), [(0x1000 + i, b) for i, b in enumerate(want)]) if r.has('o.hex') else path.fail('no code file')
    j.oracle = orc
    j.add({'a.asm': ''.join(l + '\n' for l in lines), 'inc': ' db 8\n if w=3\n db 9\n else\n db 11\n endc\n'})
    J.append(j)
    # registers and uncomparable things
    j = job('registers')
    v = j.bits(4)
    pre = ['v = ' + v.text, 'isreg macro', ' if \\1=\\2', ' db 1', ' else', ' db 2', ' endc', ' endm']
    tree = [('if', 'hl=hl', True, [db(1)], [db(2)]), ('if', 'hl=de', False, [db(3)], [db(4)]), ('if', 'a<>b', True, [db(5)], [db(6)]), ('if', 'hl != HL', False, [db(7)], [db(8)]), ('raw', ' isreg bc,bc', [1]), ('raw', ' isreg bc,hl', [2])]
    J.append(treejob('', tree, pre, cpu='z80', j=j))
    # bits of addresses: the same exactly when both are
    for part in range(2):
        j = job('bits %d' % part, maxpaths=100)
        v, w = j.bits(2), j.bits(3)
        V, W = z3.ZeroExt(38, v.bv), z3.ZeroExt(37, w.bv)
        same = [('b1 = b2', z3.And(V == 2, W == 5)), ('b1<>b2', z3.Or(V != 2, W != 5)), ('b3=b2', V == 2), ('b4 == $20{w}', W == 5), ('b2 != $22{5}', False), ('($20+v){w}=b2', z3.And(V == 2, W == 5)),
                ('b1=b3', W == 5), ('b1 <> b3', W != 5), ('BIT(b1)=5', W == 5), ('ADDR(b1) = $22', V == 2), ('b1=b1', True), ('b1 != b1', False), ('b5 = b6', False), ('b5<>b6', True), ('b1=b4', z3.And(V == 0, W == 5))]
        tree = [x for k, (c, f) in enumerate(same) if k % 2 == part for x in (db(k), ('if', c, f, [db(20 + k)], [db(40 + k)] if k % 4 < 2 else None))]
        J.append(treejob('', tree, ['v = ' + v.text, 'w = ' + w.text, 'b1 = ($20+v){w}', 'b2 = $22{5}', 'b3 = ($20+v){5}', 'b4 = $20{5}', 'b5 = 300{1}', 'b6 = 44{1}'], j=j))
    # conditions between numbers directly after operands with registers or bits
    for cpu, ops in (('z80', ((' ld b,c', [0x41]), (' ld (hl),e', [0x73]), (' push iy', [0xfd, 0xe5]), (' bit 3,h', [0xcb, 0x5c]), (' ld l,(ix+5)', [0xdd, 0x6e, 5]), (' ex de,hl', [0xeb]), (' cp a', [0xbf]), ('q = d', []), ('q equ de', []))),
                     ('6502', ((' lda 1,x', [0xb5, 1]), (' sta 5,y', [0x99, 5, 0]), (' asl a', [0x0a]), ('q = y', [])))):
        j = job('after operands of %s' % cpu, maxpaths=100)
        v = j.bits(3)
        V = z3.ZeroExt(37, v.bv)
        head = [('raw', t, list(x)) for t, x in ops]
        tree = []
        for k, (c, f) in enumerate((('%d = v' % 5, V == 5), ('v = %d' % 3, V == 3), ("'a'=v+94", V == 3), ('$2<>v', V != 2), ('v <> %110', V != 6), ('v=%001', V == 1), ('*-*=v', V == 0), ('4=4', True), ('v=v', True), ('lab=1', True), ('1<>lab', False), ('lab=%d' % 2, False))):
            for h in head:
                tree += [h, ('if', c, f, [db(k)], None), h, ('if', c, f, [('raw', 'z = 1', [])], [('raw', 'z = 0', [])]), ('raw', ' db z', [(1 if f else 0) if isinstance(f, bool) else z3.If(f, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))])]
        J.append(treejob('', tree, ['v = ' + v.text, 'lab equ 1'], cpu=cpu, j=j))
    for t in ('hl=v', 'v=hl', 'a<b', 'a>=a', 'v =', '= v', 'v=(', 'nosuch', 'v=nosuch', 'later', '1<later', 'v v', 'v=1=', 'm', 'db'):
        j = job('bad condition %s' % t)
        v = j.bits(3)
        J.append(finish(j, 'z80', [L(' if ' + t, 'error'), ' db 1', ' endc'], pre=['v = ' + v.text, 'm macro', ' endm'], post=['later = 1']))
    for n, ls in enumerate(([L(' else', 'error')], [L(' endc', 'error')], [' if v', ' db 1', ' endc', L(' endc', 'error')], [' if v', ' endc', L(' else', 'error')], [' if 1', ' else', L(' else', 'error'), L(' endc', 'error')],
                            [' if 1', L(' else x', 'error'), ' endc'], [' if 1', L(' endc v', 'error'), ' endc'], [L('lb if v', 'error')], [' if 1', L('lb else', 'error'), ' endc'], [' if 1', L('lb endc', 'error'), ' endc'])):
        j = job('misplaced %d' % n)
        v = j.bits(1)
        J.append(finish(j, '6502', list(ls), pre=['v = ' + v.text]))
    for n, tail in enumerate((' if v\n db 1\n', ' if v\n db 1\n else\n db 2\n', ' if v\n if v\n endc\n', ' if 0\n if v\n endc\n else\n', ' if v', ' if v\n else')):
        j = job('unterminated %d' % n)
        v = j.bits(1)
        def orc(job, path):
            r = path.runs[0]
            if not Listing(r.listing).errors:
                path.fail('a missing ENDC is not reported')
            if r.has('o.hex'):
                path.fail('code file in spite of an error')
        j.oracle = orc
        j.add(' cpu 6502\nv = %s\n * = 0\n db 5\n%s' % (v, tail))
        J.append(j)
    J += series('C12', tier)
    return J
