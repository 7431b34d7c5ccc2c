"""C13: macros."""
import z3, random
from tmpl import *
from recs import Prog, b32
from asm import must_image, Listing
from world import series, bounds

BOUNDS = ('macros called with 0..9 operands, each symbolic (8 or 16 bits, or text with characters symbolic over printable ASCII), \\\\1..\\\\9, \\\\# and \\\\* anywhere in a line: label, mnemonic, operand, inside strings, several times; '
          'every character after a backslash; operands with commas, parentheses, blanks, quotes and semicolons; operands of up to 200 characters and expanded lines of up to 240; calls nested 9 deep, macros defining labels, '
          'recursion with a symbolic count of 0..7, EXITM under symbolic conditions; local labels; definitions inside conditional parts and included files; wrong definitions and calls; symbolic macro names of 1..3 letters')
BOUNDS += bounds('C13')
OUTSIDE = 'expanded lines of more than 240 characters; \\\\\\\\ followed by a digit; calls nested more than 9 deep (refused by a fatal error); ENDM and EXITM outside macros'
PRINT = bytes(range(32, 127))
ALNUM = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def prog(j, cpu='6800', org=0x1000):
    p = Prog(j, 'HEX' if cpu == 'z80' else 'SCODE', cpu)
    p.raw(' * = $%x' % org)
    p.pc = b32(org)
    return p


def macro(p, name, *body, end=' endm'):
    p.raw('%s macro' % name)
    for b in body:
        p.raw(' ' + b if b[:1] != '!' else b[1:])
    p.raw(end)


def refused(name, lines, pre=(), cpu='6800', files=None, j=None):
    """lines: source; L(.., 'error') lines must be reported, no other line"""
    j = j or job(name)
    lines = [' cpu ' + cpu] + list(pre) + [' * = $1000'] + lines
    def orc(job, path):
        ls = Listing(path.runs[0].listing)
        bad = {n for n, l in enumerate(lines, 1) if isinstance(l, L)}
        got = {n for n, k, m in ls.diags if k == 'ERROR'}
        if bad - got:
            path.fail('line %d is not refused' % min(bad - got))
        if got - bad:
            path.fail('line %d is refused' % min(got - bad))
        if path.runs[0].has('o.hex'):
            path.fail('code file in spite of errors')
    j.oracle = orc
    j.add(dict({'a.asm': source(lines)}, **(files or {})))
    return j


def jobs(tier):
    J = []
    # operands: numbers
    for n in range(10):
        for sp in (',', ' , ', ', '):
            if sp != ',' and n not in (2, 9):
                continue
            j = job('%d operands %r' % (n, sp))
            vs = [j.bits(8) for _ in range(min(n, 4))] + [None] * (n - 4)
            t = [v.text if v is not None else '%d+%d' % (k, 100 + k) for k, v in enumerate(vs)]
            b = [v.bv if v is not None else 2 * k + 100 for k, v in enumerate(vs)]
            p = prog(j)
            macro(p, 'm', 'db \\#', *['if \\#>%d' % k + '' if i == 0 else 'db \\%d' % (k + 1) if i == 1 else 'endc' for k in range(9) for i in range(3)])
            macro(p, 'all', 'db \\*,\\#') if n else None
            macro(p, 'rev', 'db ' + ','.join('\\%d' % k for k in range(n, 0, -1))) if n else None
            macro(p, 'txt', 'asc "\\1-\\2-\\9"')
            p.raw(' m ' + sp.join(t), [n] + b)
            if n:
                p.raw(' all ' + sp.join(t), b + [n])
                p.raw('lb rev\t%s ; comment, more' % sp.join(t), b[::-1])
                p.raw(' dw lb', [0x10, 2 * n + 2])
            if n == 0:
                p.raw(' txt', b'--')
            J.append(p.done())
    # operands: text
    for n, (l1, l2) in enumerate(((1, 1), (3, 0), (0, 5), (12, 7))):
        j = job('text %d' % n)
        a = [j.byte(ALNUM) for _ in range(l1)]
        b = [j.byte(ALNUM) for _ in range(l2)]
        A, B = tx(a), tx(b)
        p = prog(j)
        macro(p, 'm', 'asc "\\1"', 'asc "<\\2\\1>\\#"', 'asc "\\*"')
        xs, ys = [c.bv for c in a], [c.bv for c in b]
        if l1:
            p.raw(' m %s%s' % (A, ',' + B if l2 else ''), xs + [60] + ys + xs + [62, 50 if l2 else 49] + xs + ([44] + ys if l2 else []))
        else:
            p.raw(' m ,' + B, [60] + ys + [62, 50, 44] + ys)
        J.append(p.done())
    # any printable character in an operand: in quotes everything is text
    for q in '"\'':
        j = job('quoted %s' % q, maxpaths=300)
        c, d = j.byte(bytes(x for x in PRINT if chr(x) not in q + '\\')), j.byte(bytes(x for x in PRINT if chr(x) not in q + '\\'))
        p = prog(j)
        macro(p, 'm', 'asc \\1', 'db \\2', 'asc \\3', 'db \\#')
        p.raw(' m %sx%s%sy%s , 5, %s%s%s ; c' % (q, c, d, q, q, d, q), [120, c.bv, d.bv, 121, 5, d.bv, 3])
        J.append(p.done())
    j = job('bare characters', maxpaths=300)
    c = j.byte(bytes(x for x in PRINT if chr(x) not in ',;\'"\\() '))
    p = prog(j)
    macro(p, 'm', 'asc "\\1"', 'asc "\\2"', 'asc "\\*"')
    p.raw(' m a%sb,%s' % (c, c), [97, c.bv, 98, c.bv, 97, c.bv, 98, 44, c.bv])
    J.append(p.done())
    j = job('parentheses')
    v = j.bits(5)
    p = prog(j, 'z80')
    macro(p, 'm', 'db \\1', 'db \\2*2', 'db 2*\\1', 'asc "\\1"')
    macro(p, 'ldm', 'ld \\1,\\2')
    V = z3.ZeroExt(3, v.bv)
    macro(p, 'm3', 'db \\1', 'db 2*\\2')
    p.raw(' m3 (%s+1)*2,(%s+1)' % (v, v), [2 * V + 2, 2 * V + 2]).raw(' m3 %s+1,%s+1' % (v, v), [V + 1, 2 * V + 1])
    p.raw(' ldm (ix+%s),a' % v, [0xDD, 0x77, V]).raw(' ldm a , (iy - %s)' % v, [0xFD, 0x7E, 0 - V]).raw(' ldm (%s),hl' % v, [0x22, V, 0]).raw(' ldm hl,(%s*(1+1))' % v, [0x2A, 2 * V, 0])
    macro(p, 'cnt', 'db \\#')
    p.raw(" cnt (1,2),3", [2]).raw(" cnt ',',\",\",(,)", [3]).raw(" cnt (((,),),',),2'),x", [2]).raw(' cnt "\\",\\"",1', [2]).raw(' cnt', [0]).raw(' cnt ;x', [0]).raw(' cnt 1,', [1]).raw(' cnt ,', [1]).raw(' cnt ,,1', [3])
    J.append(p.done())
    # calls without operands, or with empty ones, after calls with many
    j = job('parameters of calls without operands')
    v = j.bits(8)
    p = prog(j)
    macro(p, 'm', 'asc "<\\*>\\#\\1\\2\\3\\4\\5\\6\\7\\8\\9"')
    macro(p, 'n', 'm \\*', 'm', 'm \\1', 'asc "\\*!"')
    nine = '1,2,3,4,5,6,7,8,9'
    n9 = b'<' + nine.encode() + b'>9123456789'
    for t, b in (('', b'<>0'), (nine, n9), ('', b'<>0'), ('  ; c', b'<>0'), (',', b'<,>1'), (nine, n9), (',,x', b'<,,x>3x'), ('a', b'<a>1a'), ('', b'<>0')):
        p.raw((' m ' + t) if t else ' m', b)
        if t != ',':
            p.raw('l%d n%s' % (len(p.lines), ' ' + t if t else ''), None or (b + b'<>0' + {nine: b'<1>11', 'a': b'<a>1a'}.get(t, b'<>0') + ('' if t[:1] == ' ' else t).encode() + b'!'))
    J.append(p.done())
    # every character after a backslash in the body
    j = job('backslash', maxpaths=300)
    c = j.byte(bytes(x for x in PRINT if chr(x) not in '";\''))
    esc = {'t': 9, 'n': 10, 'r': 13, '0': 0, '\\': 92}
    lines = [' cpu 6800', 'm macro', ' asc "a\\%s"' % c, ' endm', ' * = $1000', ' m X1,,Y3,4,5,6,7,8,Z9']
    def orc(job, path, c=c, esc=esc):
        r = path.runs[0]
        subs = {'1': b'X1', '2': b'', '3': b'Y3', '9': b'Z9', '#': b'9', '*': b'X1,,Y3,4,5,6,7,8,Z9'}
        subs.update({k: k.encode() for k in '45678'})
        subs.update({k: bytes([v]) for k, v in esc.items()})
        for k, want in subs.items():
            if path.split(c.bv == ord(k)):
                if not r.has('o.hex'):
                    path.fail('\\%s: no code file' % k); return
                must_image(path, r.file('o.hex'), [(0x1000 + i, b) for i, b in enumerate(b'a' + want)]) 
                return
        if r.has('o.hex') or not Listing(r.listing).errors:
            path.fail('an unknown escape is accepted')
    j.oracle = orc
    j.add(source(lines))
    J.append(j)
    # parameters in every field, glued to other text
    j = job('fields')
    v, h = j.bits(8), j.hexnum(2, prefix='')
    p = prog(j, '6502')
    macro(p, 'm', '!\\1\\2 \\3\\4 #\\5', '!x\\1 db \\6\\5', end='  EndM  ')
    macro(p, 'n', '\\*')
    macro(p, 'eq', '!\\1 = \\2 ; \\1 \\2', '!\\1x equ \\2+1', '; \\1', '!* = *+\\3')
    p.raw(' m la,b2,ld,a,%s,$40+' % v, [0xA9, v.bv, v.bv + 0x40]).raw(' dw lab2,xla', [0, 0x10, 2, 0x10])
    p.raw(' n lda #%s' % v, [0xA9, v.bv]).raw(' N db 1,2,%s' % v, [1, 2, v.bv]).raw(' n asc "a,b"', b'a,b')
    p.raw(' eq qq,%s,3' % v)
    p.pc = z3.simplify(p.pc + 3)
    p.raw(' db qq,LO(QQX)', [v.bv, v.bv + 1])
    macro(p, 'hx', 'db $\\1\\2', 'dw 0\\1\\2H', 'db %\\3\\3\\3', "db '\\1'")
    macro(p, 'hy', 'db $\\1\\2', 'dw 0\\1\\2H', 'db %\\3\\3\\3')
    p.raw(' hy %s,,1' % h, [h.bv, h.bv, 0, 7])
    J.append(p.done())
    # long operands and long lines
    for n in (58, 59, 60, 61, 100, 200):
        j = job('operand of %d characters' % n)
        v = j.bits(8)
        c = j.byte(ALNUM)
        p = prog(j)
        macro(p, 'm', 'db \\1', 'db \\2')
        p.raw(' m ' + '+'.join(['1'] * ((n - 9) // 2)).rjust(n - 10, '0') + '+' + v.text + ',7', [v.bv + (n - 9) // 2, 7])
        macro(p, 's', 'asc "\\1"')
        p.raw(' s ' + 'x' * (n - 1) + c.text, [120] * (n - 1) + [c.bv])
        k = n // 9 - 1
        macro(p, 'a', 'db \\*')
        p.raw(' a ' + ','.join('0' * (k - 1) + '%d' % i for i in range(8)) + ',' + v.text, list(range(8)) + [v.bv])
        J.append(p.done())
    for n in (100, 200, 230):
        j = job('expanded line of %d' % n)
        v = j.bits(8)
        p = prog(j)
        k = n // 3
        macro(p, 'm', 'db \\1+\\1+\\2')
        p.raw(' m ' + '+'.join(['1'] * (k // 2)) + ',' + v.text, [v.bv + 2 * (k // 2)])
        J.append(p.done())
    # nesting and recursion
    for depth in (2, 5, 9):
        j = job('nested %d' % depth)
        v, u = j.bits(8), j.bits(8)
        p = prog(j)
        macro(p, 'm0', 'db \\1,\\2')
        for k in range(1, depth):
            macro(p, 'm%d' % k, 'db %d' % k, 'm%d \\2,\\1' % (k - 1), 'db \\1+%d' % k)
        a, b = v.bv, u.bv
        def ex(k, a, b):
            return [a, b] if k == 0 else [k] + ex(k - 1, b, a) + [a + k]
        p.raw(' m%d %s,%s' % (depth - 1, v, u), ex(depth - 1, a, b)).raw(' db 99', [99])
        J.append(p.done())
    for shape in (0, 1, 2):
        j = job('recursion %d' % shape, maxpaths=60)
        v = j.bits(3)
        body = (['db \\1', 'if \\1', 'r \\1-1', 'endc', 'db 50'], ['if \\1=0', 'exitm', 'endc', 'db \\1', 'r \\1-1', 'db 60+\\1'], ['db 1', 'if \\1<>0', 'r \\1-1', 'r 0', 'db 7', 'exitm', 'db 8', 'else', 'db 9', 'endc', 'db 10'])[shape]
        lines = [' cpu 6800', 'r macro'] + [' ' + b for b in body] + [' endm', 'v = ' + v.text, ' * = $1000', ' r v', ' db 77']
        def orc(job, path, v=v, shape=shape):
            def ex(k):
                if shape == 0:
                    return [k] + (ex(k - 1) if k else []) + [50]
                if shape == 1:
                    return [k] + ex(k - 1) + [60 + k] if k else []
                return [1] + (ex(k - 1) + ex(0) + [7] if k else [9, 10])
            k = path.which(v.bv, range(8))
            if not path.runs[0].has('o.hex'):
                path.fail('no code file'); return
            must_image(path, path.runs[0].file('o.hex'), [(0x1000 + i, b) for i, b in enumerate(ex(k) + [77])])
        j.oracle = orc
        j.add(source(lines))
        j.expect_paths = 8
        J.append(j)
    # EXITM
    j = job('exitm', maxpaths=100)
    vs = [j.bits(1) for _ in range(3)]
    lines = [' cpu 6800'] + ['v%d = %s' % (k, v) for k, v in enumerate(vs)] + ['i macro', ' db 10', ' if \\1', ' db 11', ' exitm', ' db 12', ' else', ' if v1', ' exitm', ' endc', ' db 13', ' endc', ' db 14', ' endm',
             'o macro', ' i \\1', ' db 20', ' if \\2', ' i \\2', ' exitm', ' endc', ' i v1', ' db 21', ' exitm', ' db 22', ' endm', ' * = $1000', ' o v0,v2', ' db 30', ' if v2', ' o 1,0', ' endc', ' db 31']
    def orc(job, path, vs=vs):
        a, b, c = (path.split(v.bv == 1) for v in vs)
        def i(x):
            return [10, 11] if x else [10] if b else [10, 13, 14]
        def o(x, y):
            return i(x) + [20] + (i(y) if y else i(b) + [21])
        want = o(a, c) + [30] + (o(True, False) if c else []) + [31]
        if not path.runs[0].has('o.hex'):
            path.fail('no code file'); return
        must_image(path, path.runs[0].file('o.hex'), [(0x1000 + k, x) for k, x in enumerate(want)])
    j.oracle = orc
    j.add(source(lines))
    J.append(j)
    # labels in and around calls
    for cpu in ('6502', '6800', 'z80'):
        j = job('%s labels' % cpu)
        v, o = j.bits(8), j.bits(14, prefix='%01')
        base = b32(z3.Concat(z3.BitVecVal(1, 2), o.bv))
        p = Prog(j, 'HEX' if cpu == 'z80' else 'SCODE', cpu)
        macro(p, 'm', '!.a dw .a,.b,\\1', '!.b db \\2', '!\\3 db 2')
        macro(p, 'n', 'm \\1,\\2,\\3', '!.a dw .a', 'm .a,\\2,\\3b')
        p.org(o.text, base)
        def w(x):
            return order(cpu, b32(x) if not z3.is_expr(x) or x.size() < 32 else x, 2)
        def m(x, y):
            h = p.pc
            return w(h) + w(h + 6) + w(x) + [y, 2]
        p.raw('.a db 1', [1])
        s = base
        # operands are text: a local name is looked up in the macro's own scope
        here = p.pc
        p.raw('one m one,%s,two' % v, m(here, v.bv))
        p.raw(' dw one,two,.a', w(here) + w(here + 7) + w(s))
        h2 = p.pc
        p.raw(' n two,%s,three' % v, w(h2) + w(h2 + 6) + w(here + 7) + [v.bv, 2] + w(h2 + 8) + w(h2 + 10) + w(h2 + 16) + w(h2 + 10) + [v.bv, 2])
        p.raw(' dw three,threeb,.a', w(h2 + 7) + w(h2 + 17) + w(s))
        p.raw(' code').raw('.a dw .a', w(p.pc))
        J.append(p.done())
    # definitions in conditional parts and included files; names in any case; comments in the body
    j = job('definition places', maxpaths=50)
    v, a = j.bits(1), j.bits(8)
    lines = [' cpu 6800', ' if %s' % v, 'm macro', ' db \\1 ; one', '; comment', '', ' endm', ' else', 'm macro', ' db \\1,\\1 ; two', ' ENDM', ' endc', ' include inc', ' * = $1000', ' M %s' % a, ' im %s' % a, ' mixedCase', ' MIXEDcASE ;', 'lab MixedCase', ' dw lab']
    def orc(job, path, v=v, a=a):
        one = path.split(v.bv == 1)
        want = [a.bv] * (1 if one else 2) + [7, a.bv, 59, 59, 59] + [0x10, (5 if one else 6)]
        if not path.runs[0].has('o.hex'):
            path.fail('no code file'); return
        must_image(path, path.runs[0].file('o.hex'), [(0x1000 + k, x) for k, x in enumerate(want)])
    j.oracle = orc
    j.add({'a.asm': source(lines), 'inc': 'im macro\n db 7,\\1\n endm\nMixedCase\tmacro ; c\n asc ";"\n endm ; c\n'})
    J.append(j)
    # a symbolic name
    for n in (1, 2, 3):
        j = job('name of %d' % n, maxpaths=4000, maxtime=80)
        cs = [j.byte(bytes(c for c in range(97, 123))) for _ in range(n)]
        nm = tx(cs)
        up = [c.bv ^ 0x20 for c in cs]
        v = j.bits(8)
        w = z3.Concat(*[c.bv for c in cs]) if n > 1 else cs[0].bv
        known = [k for k in 'db dl dw ds if asc equ nam ddb cpu'.split() if len(k) == n]
        lines = [' cpu 6800', ' if 1', '%sq macro' % nm, ' db \\1,5', ' endm', ' endc', ' * = $1000', ' %sq %s' % (nm, v), ' %sQ 3' % nm]
        def orc(job, path, w=w, known=known, v=v, n=n):
            ls = Listing(path.runs[0].listing)
            if ls.errors:
                # the only names in use that end in q
                path.must(w == int.from_bytes(b'be', 'big') if n == 2 else False, 'a free name is refused for a macro'); return
            must_image(path, path.runs[0].file('o.hex'), [(0x1000 + i, x) for i, x in enumerate([v.bv, 5, 3, 5])])
        j.oracle = orc
        j.add(source(lines))
        J.append(j)
    # wrong definitions and calls
    v = None
    bad = [
        ('too many operands', ['m macro', ' db 1', ' endm', L(' m 1,2,3,4,5,6,7,8,9,10', 'error'), ' db 1']),
        ('operand of MACRO', [L('m macro 1', 'error'), ' db 1']),
        ('no name', [L(' macro', 'error'), ' db 1']),
        ('defined twice', ['m macro', ' db 1', ' endm', L('m macro', 'error'), ' db 2']),
        ('defined twice, capitals', ['m macro', ' db 1', ' endm', L(' M\tMacro', 'error'), ' db 2', ' endm', ' m']),
        ('name of a label', ['q db 1', L('q macro', 'error'), ' db 2']),
        ('name of a pseudo', [L('db macro', 'error'), ' db 2']),
        ('name of an instruction', [L('ldaa macro', 'error'), ' db 2']),
        ('macro as a value', ['m macro', ' db 1', ' endm', L(' db m', 'error'), L(' dw m+1', 'error'), L(' ldaa m', 'error'), L(' ds m', 'error')]),
        ('call before the definition', [L(' m 1', 'error'), 'm macro', ' db \\1', ' endm', ' m 2']),
        ('unknown', [L(' nosuch', 'error'), L(' nosuch 1', 'error'), L('lab nosuch 1', 'error')]),
        ('malformed name', [L('1m macro', 'error'), ' db 1', L('m-n macro', 'error'), ' db 1']),
    ]
    for nm, lines in bad:
        j = job('wrong: ' + nm)
        x = j.bits(4)
        J.append(refused('', lines + [' db ' + x.text], j=j))
    for nm, lines in (('unterminated', ['m macro', ' db 1']), ('unterminated 2', ['m macro', ' db 1', ' if 1']), ('nested definition', ['o macro', 'i macro', ' db 1', ' endm', ' o'])):
        j = job('wrong: ' + nm)
        x = j.bits(4)
        def orc(job, path):
            if not Listing(path.runs[0].listing).errors:
                path.fail('not reported')
            if path.runs[0].has('o.hex'):
                path.fail('code file in spite of errors')
        j.oracle = orc
        j.add(source([' cpu 6800', ' * = $1000', ' db ' + x.text] + lines))
        J.append(j)
    # errors inside a macro: reported for each call, the rest is assembled
    j = job('errors inside')
    x = j.bits(8)
    lines = [' cpu 6800', 'm macro', ' db \\1', ' ldaa nosuch', ' db nosuch', ' zzz', ' db \\1', ' endm', ' * = $1000', 'l1 m %s' % x, 'l2 db 1', 'l3 m 1', 'l4 = *', ' dw l2-l1,l3-l2,l4-l3']
    def orc(job, path):
        r = path.runs[0]
        ls = Listing(r.listing)
        if len(ls.errors) != 6:
            path.fail('%d errors reported for 6 wrong lines' % len(ls.errors))
        if r.has('o.hex'):
            path.fail('code file in spite of errors')
        row = ls.row(14)
        b, ok = row.bytes()
        if row.errors or len(b) != 6:
            path.fail('lines after the call'); return
        path.must(z3.simplify(z3.And(b[0] == 0, b[2] == 0, b[3] == 1, b[4] == 0, b[1] == b[5])), 'a line was lost')
    j.oracle = orc
    j.add(source(lines))
    J.append(j)
    J += series('C13', tier)
    return J
