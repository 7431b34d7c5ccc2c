"""C14: INCLUDE."""
import z3, random
from tmpl import *
from recs import Prog, b32
from asm import must_image, Listing
from world import series, bounds

BOUNDS = ('programs with labels, forward references, conditionals, macros, symbolic origin and operands, cut at random places into up to 12 files, included up to 8 deep, with and without a final newline, empty files, '
          'files included several times; symbolic text at the end of a file without newline; INCLUDE in conditionals (symbolic condition), macros and included files; missing files, wrong lines in files at any depth and at lines up to 2000')
BOUNDS += bounds('C14')
OUTSIDE = 'more than 8 files deep (refused by a fatal error); conditionals and macro definitions which begin in one file and end in another'


def content(j, seed, cpu):
    """a program of some 40 lines, and its bytes: Prog"""
    rnd = random.Random(seed)
    o, vs = j.bits(13, prefix='%001'), [j.bits(8) for _ in range(3)]
    base = b32(z3.Concat(z3.BitVecVal(1, 3), o.bv))
    p = Prog(j, 'HEX' if cpu == 'z80' else 'SCODE', cpu)
    p.atoms = []
    def atom(*lines, put=()):
        p.atoms.append(list(lines))
        for v in put:
            p.put(v)
    w = lambda x: order(cpu, x if z3.is_expr(x) else b32(x), 2)
    p.pc = base
    atom(' * = ' + o.text)
    atom('m macro', ' db \\1', ' dw \\2', ' endm')
    atom('early equ %s' % vs[0])
    refs, k = [], 0
    n = 24
    for k in range(n):
        v = rnd.choice(vs)
        r = rnd.randrange(9)
        if r == 0:
            atom('l%d db %s' % (k, v), put=[v.bv]); refs.append(('l%d' % k, add32(p.pc, -1)))
        elif r == 1:
            atom('f%d' % k); refs.append(('f%d' % k, p.pc))
        elif r == 2 and refs:
            nm, val = rnd.choice(refs)
            atom(' dw ' + nm, put=w(val))
        elif r == 3:
            atom(' dw tail', put=[None, None])
        elif r == 4:
            atom(' m early+1,%s' % v, put=[vs[0].bv + 1] + w(b32(v.bv)))
        elif r == 5:
            atom(' if %s > 99' % v, ' db 1', ' else', ' db 1', ' endc', put=[1])
        elif r == 6:
            atom('; comment', '', ' asc "x,;y"', put=b'x,;y')
        elif r == 7:
            atom('.l%d db early' % k, ' dw .l%d' % k, put=[vs[0].bv] + w(p.pc))
        else:
            atom(' ds 3,%s' % v, put=[v.bv] * 3)
    tail = w(p.pc)
    atom('tail db early', put=[vs[0].bv])
    i = 0
    for q, (a, v) in enumerate(p.want):
        if v is None:
            p.want[q] = (a, tail[i & 1]); i += 1
    return p


def add32(x, k):
    return z3.simplify(x + k)


def spread(p, seed, depth, nl, cpu):
    """the atoms of p distributed over files"""
    rnd = random.Random(seed)
    files = {}
    def put(atoms, d):
        """text of a file made of atoms"""
        out, i = [], 0
        while i < len(atoms):
            r = rnd.random()
            if d and r < 0.45:
                n = rnd.randrange(0, 9)
                nm = rnd.choice(('f%d', 'inc/f%d.inc', 'A-b_%d.Asm', 'x.y.%d'))% len(files)
                files[nm] = ''
                files[nm] = put(atoms[i:i + n], d - 1)
                out.append(rnd.choice((' include %s', '\tINCLUDE\t%s', ' Include   %s ; see there', ' include %s  ')) % nm)
                i += n
            else:
                out += atoms[i]
                i += 1
        if d and not files:
            files['f'] = ''
            files['f'] = put([], 0)
            out.append(' include f')
        t = ''.join(l + '\n' for l in out)
        return t[:-1] if t and rnd.random() < nl else t
    files['a.asm'] = ' cpu %s\n' % cpu + put(p.atoms, depth)
    return files


def image(j, p, files, **kw):
    want = p.want
    def orc(job, path):
        r = path.runs[0]
        ls = Listing(r.listing)
        if ls.errors:
            path.fail('refused: %s' % (ls.errors[0],)); return
        if not r.has('o.hex'):
            path.fail('no code file'); return
        must_image(path, r.file('o.hex'), want)
    j.oracle = orc
    j.add(files, **kw)
    return j


def code(j, want, files, org=0x1000):
    """want: function of path giving the bytes"""
    def orc(job, path):
        r = path.runs[0]
        ls = Listing(r.listing)
        if ls.errors:
            path.fail('refused: %s' % (ls.errors[0],)); return
        if not r.has('o.hex'):
            path.fail('no code file'); return
        w = want(path) if callable(want) else want
        must_image(path, r.file('o.hex'), [(org + i, b) for i, b in enumerate(w)])
    j.oracle = orc
    j.add(files)
    return j


def jobs(tier):
    J = []
    n = 12 if tier == 'quick' else 60
    for seed in range(n):
        cpu = ('6502', '6800', 'z80')[seed % 3]
        j = job('program %d' % seed, maxpaths=60)
        p = content(j, seed, cpu)
        J.append(image(j, p, spread(p, seed, 1 + seed % 4, (0, 0.5, 1)[seed % 3], cpu)))
    for depth in range(1, 9):
        j = job('depth %d' % depth)
        v = j.bits(8)
        files = {'a.asm': ' cpu 6800\n * = $1000\n db 0,%s\n include f1\n db 100\n dw in%d\n' % (v, depth)}
        want = [0, v.bv]
        for k in range(1, depth + 1):
            files['f%d' % k] = ' db %d,%s\nin%d\n' % (k, v, k) + (' include f%d\n' % (k + 1) if k < depth else '') + ' db %d\n' % (100 + k) + ('' if k % 2 else ' db in%d-in1' % depth)
            want += [k, v.bv]
        for k in range(depth, 0, -1):
            want += [100 + k] + ([] if k % 2 else [2 * depth - 2])
        J.append(code(j, want + [100] + [0x10, 2 + 2 * depth], files))
    # the last line of a file needs no newline, whatever it is
    for nm, tail, bs in (('db', ' db %s', lambda v: [v]), ('comment', ' db %s\n; ', lambda v: [v]), ('label', ' db %s\nlast', lambda v: [v]), ('blank', ' db %s\n ', lambda v: [v]), ('string', ' asc "%s"', None), ('endc', ' if 1\n db %s\n endc', lambda v: [v]),
                         ('endm', 'mm macro\n db \\1\n endm', lambda v: []), ('include', ' db %s\n include leaf', lambda v: [v, 77]), ('ds', ' ds 2,%s', lambda v: [v, v]), ('equ', 'ee equ %s', lambda v: [])):
        for where in ('last', 'middle', 'main'):
            if where == 'main' and nm in ('endm', 'label'):
                continue
            j = job('no newline after %s, %s' % (nm, where), maxpaths=80)
            v = j.bits(8) if nm != 'string' else j.byte(bytes(c for c in range(33, 127) if chr(c) not in '"\\;'))
            b = bs(v.bv) if bs else [v.bv]
            t = tail % v if '%s' in tail else tail
            if where == 'main':
                files = {'a.asm': ' cpu 6800\n * = $1000\n db 1\n' + t, 'leaf': ' db 77'}
                want = [1] + b
            else:
                files = {'a.asm': ' cpu 6800\n * = $1000\n include f\n' + ('' if where == 'last' else ' db 1,2\n'), 'f': t, 'leaf': ' db 77'}
                want = b + ([] if where == 'last' else [1, 2])
                if nm == 'label':
                    files['a.asm'] += ' dw last\n'
                    want = want + [0x10, 1]
                if nm == 'endm':
                    files['a.asm'] += ' mm %s\n' % v
                    want = want + [v.bv]
                if nm == 'equ':
                    files['a.asm'] += ' db ee\n'
                    want = want + [v.bv]
                if not want:
                    files['a.asm'] += ' db 3\n'
                    want = [3]
            if not want:
                continue
            J.append(code(j, want, files))
    # the text of a line of an included file: any characters
    for final in ('', '\n'):
        j = job('any characters%r' % final, maxpaths=3000, maxtime=60)
        cs = [j.byte(bytes(c for c in range(32, 127) if chr(c) not in '"\\')) for _ in range(3)]
        J.append(code(j, [1] + [c.bv for c in cs] + [2], {'a.asm': ' cpu 6800\n * = $1000\n db 1\n include f\n db 2\n', 'f': ' asc "%s"%s' % (tx(cs), final)}))
    # included in parts of conditionals, macros; several times; with arguments
    j = job('conditional', maxpaths=60)
    v, w, x = j.bits(1), j.bits(1), j.bits(8)
    files = {'a.asm': ' cpu 6502\nv = %s\nw = %s\n * = $1000\n if v\n include one\n else\n include two\n endc\n db 9\n if w=v\n include one\n endc\n include three\n if 0\n include missing\n else\n include one\n endc\n include two\n' % (v, w),
             'one': ' db 1,%s\n' % x, 'two': ' if w\n db 2\n include one\n else\n db 3\n endc', 'three': ' if v\n include four\n endc\n db 4', 'four': ''}
    def want(path, v=v, w=w, x=x):
        a, b = path.split(v.bv == 1), path.split(w.bv == 1)
        one = [1, x.bv]
        two = [2] + one if b else [3]
        return (one if a else two) + [9] + (one if a == b else []) + [4] + one + two
    J.append(code(j, want, files))
    j = job('macros')
    x, y = j.bits(8), j.bits(8)
    files = {'a.asm': ' cpu 6502\n include defs\n * = $1000\n m %s,2\n inc2 %s\n m %s,3\n gen leaf\n db 99\n outer %s\n dw after\nafter db 1\n' % (x, y, y, x),
             'defs': 'm macro\n db \\1\n include leaf\n db \\2\n endm\ninc2 macro\n db \\1\n include body\n db \\1+1\n include leaf\n endm\ngen macro\n include \\1\n include \\1\n endm\nouter macro\n m \\1,5\n include body\n gen leaf\n endm', 'leaf': ' db 7', 'body': ' m 8,9\n db 10\n include leaf\n'}
    m = lambda a, b: [a, 7, b]
    body = m(8, 9) + [10, 7]
    want = m(x.bv, 2) + [y.bv] + body + [y.bv + 1, 7] + m(y.bv, 3) + [7, 7, 99] + m(x.bv, 5) + body + [7, 7]
    J.append(code(j, want + [len(want) + 2, 0x10, 1], files))
    j = job('sections and definitions')
    x = j.bits(8)
    files = {'a.asm': ' cpu 6800\n include head\n.loc db .loc-.loc+1\n include tail\n db x,y\n dw .loc\n dummy\n include tail\n code\n db y\n', 'head': 'x = %s\n * = $1000\n' % x, 'tail': '.here db 2\n dw .here\nx = x+1\ny = x'}
    files['a.asm'] = files['a.asm'].replace(' dummy\n include tail\n code\n db y\n', ' db y\n')
    J.append(code(j, [1, 2, 0x10, 1, x.bv + 1, x.bv + 1, 0x10, 0, x.bv + 1], files))
    # LIST options are no part of the code; CPU and OUTPUT may be included
    j = job('directives')
    x = j.bits(8)
    files = {'a.asm': ' include cpu\n * = $1000\n list off\n include f\n list on\n ilist on\n include f\n ilist off\n include f\n', 'cpu': ' cpu z80\n output hex\n', 'f': ' ld a,%s\n list on\n nop\n' % x}
    J.append(code(j, [0x3E, x.bv, 0] * 3, files))
    # line numbers: errors are reported with the number of the line in its file, once each, and all other lines are assembled
    for depth in (0, 1, 2, 5):
        for nl in ('\n', ''):
            j = job('error numbers, %d deep%r' % (depth, nl))
            x = j.bits(8)
            bad = [' ldaa nosuch', ' zzz', ' db 1,', 'a-b db 1', ' include missing', ' include', ' db nosuch+%s' % x, ' ds']
            f = [' db %s' % x] * 3 + [bad[0]] + [''] * 2 + bad[1:4] + [' db 1', ' include empty'] + bad[4:] + ['fin db %s' % x]
            nums = [n for n, l in enumerate(f, 1) if l in bad]
            files = {'f%d' % depth if depth else 'a.asm': '\n'.join([' cpu 6800', ' * = $1000'] * (depth == 0) + f + ([' ldaa nosuch', ' dw *-$1000', ' db 5'] if not depth else []) + ['']), 'empty': ''}
            want = [(n + 2 * (depth == 0)) for n in nums]
            if depth == 0:
                want.append(len(f) + 3)
            for k in range(depth - 1, -1, -1):
                t = ([' cpu 6800', ' * = $1000'] if not k else ['', '; %d' % k]) + [' include f%d' % (k + 1), ' db nosuch'] + ([' dw *-$1000', ' db 5'] if not k else [])
                files['f%d' % k if k else 'a.asm'] = '\n'.join(t) + (nl if k else '\n')
                want.append(4)
            if depth:
                files['f%d' % depth] = files['f%d' % depth].rstrip('\n') + nl
            def orc(job, path, want=want, depth=depth):
                r = path.runs[0]
                ls = Listing(r.listing)
                got = [n for n, k, m in ls.diags if k == 'ERROR']
                if got != want:
                    path.fail('errors reported for lines %s, not %s' % (got, want))
                if r.has('o.hex'):
                    path.fail('code file in spite of errors')
            j.oracle = orc
            j.add(files)
            J.append(j)
    # line numbers far down: INCLUDE and macro calls at, and returns to, lines of any number
    for k, (n, m) in enumerate(((253, 3), (254, 260), (255, 1), (256, 255), (300, 700), (511, 256), (512, 0), (1000, 30), (1023, 1025))):
        j = job('far down %d,%d' % (n, m), maxinst=400_000_000)
        x = j.bits(8)
        fill = lambda c: ['; c', '', ' ; x', ''] * (c // 4) + [''] * (c % 4)
        main = [' cpu 6800', ' * = $1000', 'mm macro', ' db 1', ' endm'] + fill(n - 5) + [' include f', ' fail', ' mm', ' fail'] + fill(m) + [' include f', ' mm', ' include e', ' fail', ' db %s' % x]
        f = fill(m) + [' db %s' % x, ' fail', ' mm', ' include e', ' fail', ' mm']
        ff = [m + 2, m + 5]
        want = ff + [n + 2, n + 4] + ff + [n + m + 8]
        def orc(job, path, want=want):
            got = [n for n, k, t in Listing(path.runs[0].listing).diags if k == 'ERROR']
            if got != want:
                path.fail('errors reported for lines %s, not %s' % (got, want))
            if path.runs[0].has('o.hex'):
                path.fail('code file in spite of errors')
        j.oracle = orc
        j.add({'a.asm': '\n'.join(main) + '\n', 'f': '\n'.join(f), 'e': '\n' * (n + 7)})
        J.append(j)
    # a file may end the macro which includes it; many times
    for k, (f, g) in enumerate(((' db \\1+1\n if v\n exitm\n endc\n db 2\n', ''), (' include g\n db 3', ' if v\n exitm\n else\n db 4\n endc\n db 5\n'), (' db 6\n exitm', ''), (' if v\n include g\n endc\n db 7', ' db 8\n exitm\n db 9\n'))):
        f = f.replace('\\1+1', '1')
        j = job('left by EXITM %d' % k, maxpaths=60)
        v, x = j.bits(1), j.bits(8)
        n = 24
        files = {'a.asm': ' cpu 6800\nv = %s\n * = $1000\nm macro\n db \\1\n include f\n db 100\n endm\n%s db 101\n' % (v, ' m %s\n' % x * n), 'f': f, 'g': g}
        def want(path, k=k, v=v, x=x, n=n):
            c = path.split(v.bv == 1)
            one = ([1] if c else [1, 2, 100], [] if c else [4, 5, 3, 100], [6], [8] if c else [7, 100])[k]
            return ([x.bv] + one) * n + [101]
        J.append(code(j, want, files))
        j = job('error after EXITM %d' % k, maxpaths=60)
        v, x = j.bits(1), j.bits(8)
        files = {'a.asm': ' cpu 6800\nv = %s\n * = $1000\nm macro\n db \\1\n include f\n db 100\n endm\n m %s\n fail 10\n m 2\n\n m 3\n fail 14\n' % (v, x), 'f': f, 'g': g}
        def orc(job, path):
            got = [n for n, k, m in Listing(path.runs[0].listing).diags if k == 'ERROR']
            if got != [10, 14]:
                path.fail('errors reported for lines %s, not 10 and 14' % got)
        j.oracle = orc
        j.add(files)
        J.append(j)
    # missing and misspelled file names
    for nm, there in (('f', 'F'), ('F', 'f'), ('f.inc', 'f'), ('f', 'f.inc'), ('d/f', 'f'), ('"f"', 'f'), ('fg', 'f'), ('f g', 'f'), ('', 'f')):
        j = job('missing %s/%s' % (nm, there))
        x = j.bits(8)
        def orc(job, path):
            r = path.runs[0]
            ls = Listing(r.listing)
            if [n for n, k, m in ls.diags if k == 'ERROR'] != [3]:
                path.fail('a missing file is not reported')
            if r.has('o.hex'):
                path.fail('code file in spite of an error')
        j.oracle = orc
        j.add({'a.asm': ' cpu 6800\n * = $1000\n include %s\n db %s\n' % (nm, x), there: ' db 1\n'})
        J.append(j)
    # labels defined twice through two inclusions are reported
    j = job('included twice')
    x = j.bits(8)
    def orc(job, path):
        r = path.runs[0]
        ls = Listing(r.listing)
        if [n for n, k, m in ls.diags if k == 'ERROR'] != [2]:
            path.fail('a label defined twice through INCLUDE is not reported')
        if r.has('o.hex'):
            path.fail('code file in spite of an error')
    j.oracle = orc
    j.add({'a.asm': ' cpu 6800\n * = $1000\n include f\n include f\n db %s\n' % x, 'f': ' db 1\nlab db 2\n'})
    J.append(j)
    # too deep: no code file
    for depth in (10, 11, 0):
        j = job('too deep %d' % depth)
        x = j.bits(8)
        files = {'a.asm': ' cpu 6800\n * = $1000\n db %s\n include f1\n' % x}
        for k in range(1, depth + 1):
            files['f%d' % k] = ' db 1\n' + (' include f%d\n' % (k + 1) if k < depth else '')
        if not depth:
            files['f1'] = ' db 1\n include f1\n'
        def orc(job, path):
            r = path.runs[0]
            if r.code == 0 and not Listing(r.listing).errors:
                path.fail('too deep INCLUDE is not reported')
        j.oracle = orc
        j.add(files)
        J.append(j)
    J += series('C14', tier)
    return J
