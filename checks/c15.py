"""C15: what happens to programs with errors and warnings."""
import z3, random, re
from tmpl import *
from recs import b32
from asm import must_image, Listing
from world import series, bounds

BOUNDS = ('programs of up to 60 lines with any of some 150 wrong lines (every way of going wrong the processors, pseudo-mnemonics, expressions and names know) among correct ones with symbolic operands; errors and warnings under up to 6 '
          'symbolic conditions; in the middle of macros, included files, conditionals; up to 300 errors; with and without -o, -l, -s and -x, with an older code file there or not')
BOUNDS += bounds('C15')
OUTSIDE = 'the addresses of lines after a wrong line; fatal errors (C14: too deep INCLUDE); lines wrong for more than one reason'

COMMON = [
    ' zzz', ' zzz 1', 'lab zzz', 'a-b db 1', '1x db 1', 'a+b', '1x', 'x+y = 1', '1x = 2', '$x equ 1', ' equ 1', 'q8 equ', 'q9 =', '* db 1', 'one two three four', 'good db 2', 'good', 'good ds 1', 'good code',
    ' db nosuch', ' dw nosuch', ' dl nosuch', ' db 1,nosuch', ' ds nosuch', ' ds', ' ds ,1', ' ds 1,', ' db 1,', ' db ,1', ' dw 1,,2', ' db 1+', ' db +', ' db (', ' db 1)', ' db (1', ' db 1 1', ' db good good', ' db $', ' db $g', ' db 9a',
    ' db @8', ' db %2', " db '", ' db \\', " db '\\q'", " asc", ' asc abc', ' asc "abc', " asc 'abc\"", ' asc "a" b', ' asc "\\q"', ' asc "a\\', ' db zzz', ' db db', ' dw equ', ' db db+1', ' align', ' align 4', ' align both', ' cpu', ' cpu 6502', ' cpu 9999',
    ' output', ' output bin', ' list', ' list yes', ' list on off', ' clist', ' clist x', ' ilist 1', ' mlist', ' mlist no', ' page 1', ' page x,y', ' page 5,80', ' page 66,20', ' page 66,', ' page 201,76', ' skip nosuch', ' skip good+', ' nam', ' nam a title of more than thirty characters',
    ' fail', ' fail oops', ' FAIL  a Longer Message, with "everything"', ' code 1', ' dummy x', ' include', ' include nosuch', ' macro', 'mm macro 1', ' else', ' endc', ' mac 1,2,3,4,5,6,7,8,9,10', ' db mac', ' * = nosuch', 'x9 = nosuch', 'db = 1', 'db equ 1', 'equ db 1',
]
WRONG = {
    '6502': [' lda', ' lda #', ' lda #nosuch', ' nop 1', ' bne far', ' lda (good)', ' lda (good,y)', ' sta #1', ' jmp #1', ' jmp good,x', ' ldx good,x', ' lda a', ' asl #1', ' inx x', ' tax 1', ' jsr', ' beq', ' rts 1', ' lda x', ' stx good,x', ' bra good', ' stz 1', ' inc', ' a = 1', ' phx', ' ldaa #1', ' lda good,z', ' sty $1234,x'],
    '6800': [' ldaa', ' ldaa #', ' ldaa #nosuch', ' nop 1', ' bne far', ' staa #1', ' jmp #1', ' ldaa 1,y', ' lda', ' lda #1', ' aba 1', ' bsr', ' rts 1', ' beq far', ' clra 1', ' tst', ' ldab nosuch,x', ' stx #1', ' ldd #1', ' mul', ' bra far+nosuch', ' psha 1'],
    'z80': [' ld a', ' ld', ' ld a,', ' ld a,nosuch', ' ld b,(1)', ' ld (1),b', ' ld bc,de', ' nop 1', ' jr far', ' djnz far', ' jr po,good', ' inc', ' inc 5', ' push a', ' pop sp', ' ex a,b', ' ex de,bc', ' im 3', ' rst 9', ' bit 8,a', ' in a', ' out (c)', ' add hl,ix', ' adc ix,bc', ' ld (ix),hl', ' ld ix+1,5', ' jp (good)+', ' jp zz,good', ' call', ' ret zz', ' sla 3', ' a = 1', ' ld hl,a', ' ld a,bc', ' bit good+', ' lda #1'],
}
GOOD = {'6502': (' lda #%s', 0xA9), '6800': (' ldaa #%s', 0x86), 'z80': (' ld a,%s', 0x3E)}


def count(path, ls, pat):
    o, m = ls.tailline(pat)
    if m is None:
        path.fail('no line %s in the summary' % pat); return None
    return int(m.group(1))


def judge(path, spec, cpu, run=0, warns=(), code='o.hex', args=(), org=0x1000):
    """spec: [(text, what)] with what: None (plain), 'error', [bytes], or ('maybe', condition-is-error, bytes)"""
    r = path.runs[run]
    ls = Listing(r.listing)
    bad = []
    for n, (t, w) in enumerate(spec, 1):
        if w == 'error' or isinstance(w, tuple) and split(path, w[1]):
            bad.append(n)
    got = [n for n, k, m in ls.diags if k == 'ERROR']
    if got != bad:
        d = sorted(set(got) ^ set(bad)) or [n for n in got if got.count(n) != 1]
        path.fail('errors for lines %s, expected %s; line %d: %s' % (got[:9], bad[:9], d[0] if d else 0, spec[d[0] - 1][0] if d and d[0] <= len(spec) else '?'))
    k = count(path, ls, r'^ERRORS: +(\d+) *$')
    if k is not None and k != len(bad):
        path.fail('%d errors counted, there are %d' % (k, len(bad)))
    ok, no = ls.tailline(r'^Successful assembly')[0], ls.tailline(r'^No code generated')[0]
    if (ok is None) != bool(bad) or (no is None) == bool(bad):
        path.fail('success is reported wrongly')
    if r.code != 0:
        path.fail('exit status %s' % r.code)
    if bad and r.left(code):
        path.fail('code file in spite of errors')
    want = []
    for n, (t, w) in enumerate(spec, 1):
        b = w if isinstance(w, list) else w[2] if isinstance(w, tuple) else None
        if not b or n in bad:
            continue
        want += b
        if '-l' in args:
            continue
        row = ls.row(n)
        if row is None:
            path.fail('line %d is missing from the listing' % n); continue
        lb, okc = row.bytes()
        if len(lb) != len(b):
            path.fail('line %d: %d bytes, expected %d' % (n, len(lb), len(b))); continue
        path.must(okc, 'line %d: no hex digits' % n)
        for x, y in zip(lb, b):
            path.must(z3.simplify(x == (z3.BitVecVal(y, 8) if isinstance(y, int) else y)), 'line %d: code is wrong' % n)
    if not bad:
        if want and code:
            if not r.has(code):
                path.fail('no code file')
            else:
                must_image(path, r.file(code), [(org + i, b) for i, b in enumerate(want)])
    return ls


def head(cpu, pre=()):
    return [(' cpu ' + cpu, None)] + [(t, None) for t in pre] + [('mac macro', None), (' db \\1', None), (' endm', None), (' * = $1000', None), ('good db 1', [1])]


def tail():
    return [('last db 2', [2]), ('far = good+300', None)]


def make(j, cpu, spec, args=None, files=None, code='o.hex', **kw):
    def orc(job, path):
        judge(path, spec, cpu, args=args or (), code=code, **kw)
    j.oracle = orc
    f = {'a.asm': ''.join(t + '\n' for t, w in spec)}
    f.update(files or {})
    if args is None:
        j.add(f)
    else:
        j.add(f, args=['crasm'] + list(args))
    return j


def jobs(tier):
    J = []
    for cpu in ('6502', '6800', 'z80'):
        t, op = GOOD[cpu]
        bad = COMMON + WRONG[cpu]
        # all of them, a correct line after each
        for part in range(3):
            j = job('%s all wrong lines %d' % (cpu, part), maxpaths=60)
            v = j.bits(8)
            spec = head(cpu)
            for b in bad[part::3]:
                spec += [(b, 'error'), (t % v, [op, v.bv])]
            J.append(make(j, cpu, spec + tail()))
        # some, in a row or alone
        for seed in range(12 if tier == 'quick' else 60):
            rnd = random.Random(seed)
            j = job('%s wrong lines %d' % (cpu, seed), maxpaths=60)
            v, w = j.bits(8), j.bits(8)
            spec = head(cpu)
            for k in range(rnd.choice((1, 1, 2, 9))):
                for b in rnd.sample(bad, rnd.choice((1, 1, 2, 5))):
                    spec.append((b, 'error'))
                for q in range(rnd.randrange(3)):
                    spec += rnd.choice(([(t % w, [op, w.bv])], [(' db %s,7,%s' % (w, v), [w.bv, 7, v.bv])], [(' asc "a;b"', list(b'a;b'))], [('; %s' % v, None)], [('', None)], [(' ds 2,%s' % v, [v.bv] * 2)]))
            J.append(make(j, cpu, spec + tail()))
        # the condition is symbolic: no error, no loss
        j = job('%s conditional errors' % cpu, maxpaths=100)
        vs = [j.bits(1) for _ in range(5)]
        v = j.bits(8)
        spec = head(cpu, ['v%d = %s' % (k, x) for k, x in enumerate(vs)])
        for k, x in enumerate(vs):
            c = x.bv == 1
            spec += [(' if v%d%s' % (k, ' = 1' if k & 1 else ''), None), ((' fail no', ' lda nosuch', ' zzz', ' db 1,', ' include nosuch')[k], ('maybe', c, [])), (' endc', None), (t % v, [op, v.bv])]
        J.append(make(j, cpu, spec + tail()))
        # ... and warnings
        j = job('%s conditional warnings' % cpu, maxpaths=100)
        vs, e = [j.bits(1) for _ in range(4)], j.bits(1)
        v = j.bits(8)
        wl = ' skip 200'
        spec = head(cpu, ['v%d = %s' % (k, x) for k, x in enumerate(vs)])
        for k, x in enumerate(vs):
            spec += [(' if v%d' % k, None), (wl, None), (' endc', None), (t % v, [op, v.bv])]
        spec += [(' if %s' % e, None), (' fail', ('maybe', e.bv == 1, [])), (' endc', None)] + tail()
        lines = [n for n, (x, w) in enumerate(spec, 1) if x == wl]
        def orc(job, path, spec=spec, cpu=cpu, vs=vs, lines=lines):
            ls = judge(path, spec, cpu)
            want = [n for n, x in zip(lines, vs) if split(path, x.bv == 1)]
            if [n for n, k, m in ls.warnings] != want:
                path.fail('warnings for lines %s, expected %s' % ([n for n, k, m in ls.warnings], want))
            if count(path, ls, r'^WARNINGS: +(\d+) *$') != len(want):
                path.fail('warnings miscounted')
        j.oracle = orc
        j.add(''.join(x + '\n' for x, w in spec))
        J.append(j)
        # options
        for opts in ('', '-l', '-s', '-ls', '-x', '-lsx', '-l -s'):
            for old in (False, True):
                if old and opts not in ('', '-ls'):
                    continue
                j = job('%s options %s%s' % (cpu, opts, ' old' * old), maxpaths=40)
                e, v = j.bits(1), j.bits(8)
                spec = head(cpu) + [(t % v, [op, v.bv]), (' if %s' % e, None), (' db nosuch', ('maybe', e.bv == 1, [])), (' endc', None), (' skip 300', None), (t % v, [op, v.bv])] + tail()
                args = opts.split() + ['-o', 'o.hex', 'a.asm']
                def orc(job, path, spec=spec, cpu=cpu, opts=opts):
                    ls = judge(path, spec, cpu, args=('-l',) if 'l' in opts else ())
                    n = 0 if 's' in opts else 1
                    if len(ls.warnings) > n or 'l' not in opts and len(ls.warnings) != n:
                        path.fail('%d warnings are printed' % len(ls.warnings))
                    if count(path, ls, r'^WARNINGS: +(\d+) *$') != n:
                        path.fail('warnings miscounted')
                    if 'l' in opts and [r for r in ls.rows if not r.errors]:
                        path.fail('listed in spite of -l: %s' % [r for r in ls.rows if not r.errors][0].src())
                j.oracle = orc
                f = {'a.asm': ''.join(x + '\n' for x, w in spec)}
                if old:
                    f['o.hex'] = 'old\n'
                j.add(f, args=['crasm'] + args)
                J.append(j)
        # an older code file, and nothing but errors
        for k, (pre, bad) in enumerate((((), ' zzz'), ((), ' db 1'), ((' * = $1000',), ' db nosuch'), ((' * = $1000', 'qq = 1', 'm macro', ' db 1', ' endm'), ' fail %s'), ((' * = $1000', ' dummy', ' db 1'), ' db 1,'), ((' * = $1000',), ' include nosuch'))):
            for opts in ('', '-ls'):
                j = job('%s nothing but errors %d %s' % (cpu, k, opts), maxpaths=40)
                v = j.bits(8)
                spec = [(' cpu ' + cpu, None)] + [(t_, None) for t_ in pre] + [(bad % v if '%s' in bad else bad, 'error')] * (1 + k % 2)
                J.append(make(j, cpu, spec, args=opts.split() + ['-o', 'o.hex', 'a.asm'], files={'o.hex': 'S00600004844521B\n%s\n' % v}))
        # without -o nothing is written
        for opts in ('', '-lx'):
            j = job('%s no code file %s' % (cpu, opts), maxpaths=40)
            e, v = j.bits(1), j.bits(8)
            spec = head(cpu) + [(t % v, [op, v.bv]), (' if %s' % e, None), (' db nosuch', ('maybe', e.bv == 1, [])), (' endc', None), (t % v, [op, v.bv])] + tail()
            def orc(job, path, spec=spec, cpu=cpu, opts=opts):
                judge(path, spec, cpu, args=('-l',) if 'l' in opts else (), code=None)
                more = set(path.runs[0]._f) - {'a.asm', '<stdout>', '<stderr>', '<stdin>'}
                if more:
                    path.fail('files written without -o: %s' % sorted(more))
            j.oracle = orc
            j.add({'a.asm': ''.join(x + '\n' for x, w in spec)}, args=['crasm'] + opts.split() + ['a.asm'])
            J.append(j)
    # many errors
    for n in (9, 10, 99, 100, 128, 255, 256, 257, 300, 512, 999, 1000, 1024) + ((10000, 32768, 65536) if tier == 'thorough' else ()):
        j = job('%d errors' % n)
        v = j.bits(8)
        spec = head('6800') + [(' db nosuch%d' % k if n < 310 else ' zzz', 'error') for k in range(n)] + [(' db %s' % v, [v.bv])]
        J.append(make(j, '6800', spec))
        # ... and warnings, with or without an error; the number of warnings prevents nothing
        j = job('%d warnings' % n)
        e, v = j.bits(1), j.bits(8)
        spec = head('6800') + [(' skip 101', None)] * n + [(' if %s' % e, None), (' fail', ('maybe', e.bv == 1, [])), (' endc', None), (' db %s' % v, [v.bv])]
        def orc(job, path, spec=spec, n=n):
            ls = judge(path, spec, '6800')
            if len(ls.warnings) != n:
                path.fail('%d warnings, expected %d' % (len(ls.warnings), n))
            if count(path, ls, r'^WARNINGS: +(\d+) *$') != n:
                path.fail('warnings miscounted')
        j.oracle = orc
        j.add(''.join(x + '\n' for x, w in spec))
        J.append(j)
    # in macros and included files every erroneous line counts; what is around goes on
    j = job('macros and includes', maxpaths=60)
    e, f, v = j.bits(1), j.bits(1), j.bits(8)
    src = [' cpu 6800', 'm macro', ' if \\1', ' fail', ' endc', ' db \\2', ' endm', ' * = $1000', ' m %s,1' % e, ' db %s' % v, ' m %s,2' % f, ' include inc', ' if %s' % e, ' include inc', ' endc', ' db %s' % v]
    def orc(job, path, e=e, f=f, v=v):
        r = path.runs[0]
        ls = Listing(r.listing)
        a, b = split(path, e.bv == 1), split(path, f.bv == 1)
        n = a + b + b + (a and b)
        if len(ls.errors) != n or count(path, ls, r'^ERRORS: +(\d+) *$') != n:
            path.fail('%d errors reported, %d expected' % (len(ls.errors), n))
        if r.left('o.hex') != (n == 0):
            path.fail('code file present or absent wrongly')
        if not n:
            must_image(path, r.file('o.hex'), [(0x1000 + i, x) for i, x in enumerate([1, v.bv, 2, 3, 4, v.bv])])
        row = ls.row(16)
        bs, okc = row.bytes()
        path.must(okc, 'no code')
        if len(bs) != 1:
            path.fail('last line'); return
        path.must(bs[0] == v.bv, 'last line')
    j.oracle = orc
    j.add({'a.asm': ''.join(x + '\n' for x in src), 'inc': ' db 3\n m %s,4\n' % f})
    J.append(j)
    J += series('C15', tier)
    return J
