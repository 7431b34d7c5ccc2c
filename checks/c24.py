"""C24: the command line, and what happens when a file or memory fails."""
import random, re, z3
from tmpl import *
from sx import Fault
from asm import Listing

BOUNDS = ('every combination of the options; words of up to 3 arbitrary option characters (all 255 values) before, between and behind the file names, 1 to 5 option words; every arrangement of input and -o; a read, write, open or close of any file or an allocation failing '
          'at any one place of the run (symbolic place), once or from then on, and two faults together; programs of up to 60 lines for each CPU with macros, included files, sections, symbolic operands')
OUTSIDE = 'the effect of -x together with a listing (the manual and the program differ); an option word with o in the middle, a second -o, a -o without a name; a code file with the name of the source; several faults beyond two; what happens to text that cannot be written to standard output'
KEYS = 'slx'
ALLC = bytes(range(1, 256))


def equal(path, a, b, what):
    if len(a.items) != len(b.items):
        x, y = a.lines(), b.lines()
        d = next((k for k in range(min(len(x), len(y))) if x[k].shape != y[k].shape), min(len(x), len(y)))
        path.fail('%s (line %d: %r, %r)' % (what, d + 1, x[d].shape if d < len(x) else None, y[d].shape if d < len(y) else None)); return
    for k in range(len(a.items)):
        if a.items[k] != b.items[k] or not isinstance(a.items[k], int):
            path.must(z3.simplify(a.bv(k) == b.bv(k)), what)


def same(path, a, b, what, out=True):
    """run a ended as run b did"""
    if (a.status, a.code) != (b.status, b.code):
        path.fail('%s: another exit status' % what); return
    if out:
        equal(path, a.listing, b.listing, what + ': another listing')
    fa, fb = [{k for k in r._f if not k.startswith('<')} for r in (a, b)]
    if fa != fb or a.gone != b.gone:
        path.fail('%s: other files: %s, %s' % (what, sorted(fa), sorted(fb))); return
    for k in fa:
        equal(path, a.file(k), b.file(k), what + ': another code file')


def refused(path, r, what):
    """a wrong command line: explained, nothing done"""
    s = [o.shape for o in r.listing.lines()]
    if r.status != 'exit' or r.code == 0 or not any(t.startswith('Syntax:') and '[-slx]' in t and '-o' in t for t in s) or not any('6502' in t for t in s) or not any('Z80' in t for t in s):
        path.fail('%s is not answered with an explanation and a failure status: %s, %r' % (what, r.code, s[:2]))
    if any(not k.startswith('<') for k in r._f) or r.gone:
        path.fail('%s: files are changed' % what)
    if any(re.match(r'^(ERRORS|Crasm \S+: )', t) for t in s):
        path.fail('%s: the program is assembled nevertheless' % what)


def program(rnd, cpu, v, n, errors=False, warns=True):
    op = {'6502': ' lda #%s', '6800': ' ldab %s,x', 'z80': ' ld (hl),%s'}[cpu]
    src = [' cpu ' + cpu, 'm macro', ' db \\1', '.x dw .x', ' endm', ' * = $1000', 'start']
    for k in range(n):
        c = rnd.randrange(12)
        src.append('l%d db %s,%d' % (k, v, k) if c < 3 else op % v if c < 5 else ' m %s' % v if c == 5 else ' include f' if c == 6 else ' db $1%02x' % k if c == 7 and warns else ' zzz %d' % k if c == 8 and errors else ' ds %d' % (k % 5) if c == 9 else ' asc "text"' if c == 10 else ' dw start ; %d' % k)
    if errors:
        src.insert(7 + n // 2, ' zzz')
    return '\n'.join(src) + '\n', {'f': ' db 3\nin%s equ 7\n' % cpu}


def plan(name, cpu, seed, n, argsf, errors=False, vbits=6, maxpaths=3000):
    """argsf(job) -> (list of argument lists, oracle(path, refs, runs)); the first 8 runs are the references for the subsets of s, l, x"""
    j = job(name, maxpaths=maxpaths, maxtime=200)
    v = j.bits(vbits)
    text, files = program(random.Random(seed), cpu, v, n, errors)
    files = dict(files, **{'a.asm': text})
    args, orc = argsf(j)
    for q in range(8):
        j.add(files, args=['crasm'] + ['-' + k for i, k in enumerate(KEYS) if q >> i & 1] + ['-o', 'o.hex', 'a.asm'])
    for a in args:
        j.add(files, args=['crasm'] + a)
    j.oracle = lambda job, path: orc(path, path.runs[:8], path.runs[8:])
    return j


def chosen(path, syms, known=0):
    """which of s, l, x the symbolic option characters ask for; None: one of them is no option; False: no claim"""
    q = known
    for c in syms:
        for i, k in enumerate(KEYS):
            if split(path, c.bv == ord(k)):
                q |= 1 << i
                break
        else:
            if split(path, c.bv == ord('o')):
                return False
            return None
    return q


def opts(name, words, cpu, seed, dom=ALLC, n=10, errors=False):
    """words: arguments with ? for an arbitrary character"""
    def argsf(j):
        syms, a, known = [], [], 0
        for w in words:
            t = ''
            for c in w:
                if c == '?':
                    b = j.byte(dom)
                    syms.append(b)
                    t += b.text
                else:
                    t += c
                    if w[0] == '-' and c in KEYS:
                        known |= 1 << KEYS.index(c)
            a.append(t)
        def orc(path, refs, runs):
            q = chosen(path, syms, known)
            if q is False:
                return
            if q is None:
                refused(path, runs[0], 'an unknown option'); return
            if 'o.hex' in words:
                same(path, runs[0], refs[q], 'options %s' % ' '.join(words))
            else:
                same(path, runs[0], refs[q], 'without -o') if False else nofile(path, runs[0], refs[q])
        return [a], orc
    return plan(name, cpu, seed, n, argsf, errors, vbits=3)


def nofile(path, r, ref):
    if (r.status, r.code) != (ref.status, ref.code):
        path.fail('without -o: another exit status')
    equal(path, r.listing, ref.listing, 'without -o: another listing')
    if any(not k.startswith('<') for k in r._f) or r.gone:
        path.fail('a file is written without -o')


def text(o):
    return [x for x in o.lines() if x.shape.strip()]


def lines_equal(path, a, b, what):
    if [x.shape for x in a] != [y.shape for y in b]:
        d = next((k for k in range(min(len(a), len(b))) if a[k].shape != b[k].shape), min(len(a), len(b)))
        path.fail('%s: %r, %r' % (what, a[d].shape if d < len(a) else None, b[d].shape if d < len(b) else None)); return
    for x, y in zip(a, b):
        for k in range(len(x.items)):
            if x.items[k] != y.items[k] or not isinstance(x.items[k], int):
                path.must(z3.simplify(x.bv(k) == y.bv(k)), what)


def meaning(name, cpu, seed, n, errors):
    """what each option does"""
    def argsf(j):
        def orc(path, refs, runs):
            isw = lambda o: re.match(r'^>* *\d+ WARNING: ', o.shape) or o.shape.startswith('WARNINGS:')
            for q in range(8):
                r = refs[q]
                if r.status != 'exit' or r.code != 0:
                    path.fail('option set %d: exit status %s' % (q, r.code)); return
                t = text(r.listing)
                if q & 1:
                    lines_equal(path, [o for o in text(refs[q - 1].listing) if not isw(o)], [o for o in t if not isw(o)], '-s changes more than the warnings')
                    if any(' WARNING: ' in o.shape[:20] for o in t):
                        path.fail('a warning in spite of -s')
                if q & 2:
                    if any(re.match(r'^.{21} *\d+  ', b.shape) and not re.match(r'^>* *\d+ ERROR: ', a.shape) for a, b in zip(t, t[1:])):
                        path.fail('a line of the program is listed in spite of -l')
                    dg = lambda l: [o for o in text(l) if re.match(r'^>* *\d+ ERROR: ', o.shape) or re.match(r'^(ERRORS|WARNINGS|Successful|No code|Last|Code)', o.shape)]
                    lines_equal(path, dg(refs[q - 2].listing), dg(r.listing), '-l changes the messages')
                if r.has('o.hex') != refs[0].has('o.hex'):
                    path.fail('the code file depends on the options'); return
                if r.has('o.hex'):
                    equal(path, r.file('o.hex'), refs[0].file('o.hex'), 'another code file with other options')
            if refs[0].has('o.hex') == bool(errors):
                path.fail('code file %s' % ('in spite of errors' if errors else 'missing'))
        return [], orc
    return plan(name, cpu, seed, n, argsf, errors)


def wrongline(name, *argss):
    """command lines which must be refused"""
    def argsf(j):
        c = j.byte(bytes(range(97, 123)))
        def orc(path, refs, runs):
            for r in runs:
                refused(path, r, 'the command line %s' % ' '.join(r.spec.args[1:]))
        return [[w.replace('?', c.text) for w in a] for a in argss], orc
    return plan(name, '6502', 1, 4, argsf, vbits=2)


def done(r):
    ls = Listing(r.listing)
    return ls, ls.tailline(r'^Successful assembly')[0] is not None, ls.tailline(r'^No code generated')[0] is not None


def endrec(o):
    ls = o.lines()
    return bool(ls) and (ls[-1].shape.startswith('S9') or ls[-1].shape.startswith('S8') or ls[-1].shape.startswith('S7') or ls[-1].shape == ':00000001FF')


def honest(path, r, ref, what, output=True):
    """a run in which something failed: it ends by itself, and either it does what the run without fault does or it says that it failed and leaves no code file that looks complete.
    Returns True when it says so"""
    if r.status != 'exit':
        path.fail('%s: the program ends with %s' % (what, r.status)); return False
    refcode = ref.has('o.hex')
    if not output:
        if r.code == 0 and (r.has('o.hex') != refcode):
            path.fail('%s: another outcome' % what); return False
        if r.code == 0 and refcode:
            equal(path, r.file('o.hex'), ref.file('o.hex'), what + ': another code file')
        return False
    ls, ok, no = done(r)
    told = bool(ls.fatal) if r.code else no
    if r.code and not ls.fatal:
        path.fail('%s: failure status without a message' % what)
    if not r.code and ok == no:
        path.fail('%s: neither success nor failure reported' % what)
    if told:
        if r.code and r.has('o.hex') and endrec(r.file('o.hex')):
            path.fail('%s: reported, but a complete code file is left' % what)
        if not r.code and r.has('o.hex'):
            path.fail('%s: reported, but the code file is left' % what)
    elif not refcode:
        path.fail('%s: success reported in place of errors' % what)
    elif not r.has('o.hex'):
        path.fail('%s: success reported without code file' % what)
    else:
        equal(path, r.file('o.hex'), ref.file('o.hex'), '%s: success reported, but another code file' % what)
    return told


def fault(name, cpu, seed, n, mk, errors=False, args=(), extra=None, fmt=None, maxpaths=2000, output=True, vbits=4):
    """mk(job) -> (faults, told(path, ref) -> True, False or None: must the run say that it failed?)"""
    j = job(name, maxpaths=maxpaths, maxtime=200)
    v = j.bits(vbits)
    t, files = program(random.Random(seed), cpu, v, n, errors)
    if fmt:
        t = ' output %s\n' % fmt + t
    files = dict(files, **{'a.asm': t}, **(extra or {}))
    al = ['crasm', '-o', 'o.hex'] + list(args) + ['a.asm']
    faults, must = mk(j)
    j.add(files, args=al)
    j.add(files, args=al, faults=faults)
    def orc(job, path):
        ref, r = path.runs
        if ref.status != 'exit' or ref.code != 0:
            path.fail('the program without fault fails'); return
        told = honest(path, r, ref, name, output)
        m = must(path, ref)
        if m is True and not told:
            path.fail('%s: not reported' % name)
        if m is False:
            same(path, r, ref, name + ' never reached')
    j.oracle = orc
    return j


def at(kind, fname, base, w, size, once=False, scale=1, err=28):
    """a fault at a symbolic place from base on; must be reported when the place is within size(ref) operations"""
    def mk(j):
        c = j.count(w)
        def must(path, ref):
            n = size(ref)
            if n is None:
                return None
            if n <= base:
                return False
            k = (n - base + scale - 1) // scale
            if k >= 1 << w:
                return True
            return split(path, z3.ULT(c.bv, k))
        return [Fault(kind, fname, base, c, scale, once, err)], must
    return mk


def jobs(tier):
    big = tier == 'thorough'
    J = []
    cpus = ('6502', '6800', 'z80')
    # what the options do
    for k in range(6 if not big else 24):
        J.append(meaning('meaning %d' % k, cpus[k % 3], 40 + k, (6, 14, 22, 30)[k % 4], k % 2 == 1))
    # arbitrary options
    for k, w in enumerate((['-?', '-o', 'o.hex', 'a.asm'], ['-o', 'o.hex', '-?', 'a.asm'], ['-o', 'o.hex', 'a.asm', '-?'], ['-?o', 'o.hex', 'a.asm'], ['a.asm', '-?', '-o', 'o.hex'], ['a.asm', '-?o', 'o.hex'], ['-?', 'a.asm'], ['a.asm', '-?'], ['-??', '-o', 'o.hex', 'a.asm'], ['a.asm', '-??o', 'o.hex'],
                           ['-?', '-o', 'o.hex', '-?', 'a.asm'], ['-?', 'a.asm', '-?o', 'o.hex'], ['-??', 'a.asm'])):
        J.append(opts('options %s' % ' '.join(w), w, cpus[k % 3], k, n=6, errors=k % 4 == 3))
    few = b'slxoSLX-1 hv'
    for k, w in enumerate((['-???', 'a.asm', '-o', 'o.hex'], ['-?', '-?', '-?', '-o', 'o.hex', 'a.asm'], ['a.asm', '-???o', 'o.hex'], ['-?', '-?', 'a.asm', '-o', 'o.hex', '-?'])):
        J.append(opts('some options %s' % ' '.join(w), w, cpus[k % 3], 20 + k, few if big else few[:8], n=6))
    arr = [['-o', 'o.hex', 'a.asm'], ['a.asm', '-o', 'o.hex'], ['-s', '-l', '-x', 'a.asm', '-o', 'o.hex'], ['-xl', 'a.asm', '-so', 'o.hex'], ['-slxo', 'o.hex', 'a.asm'], ['-lllo', 'o.hex', 'a.asm', '-s'], ['-o', 'o.hex', '-x', '-', 'a.asm'], ['-', 'a.asm', '-o', 'o.hex'], ['-l', 'a.asm'], ['a.asm'], ['a.asm', '-xs'], ['-ss', '-ss', 'a.asm', '-ll', '-o', 'o.hex']]
    for k, w in enumerate(arr):
        for e in (False, True):
            J.append(opts('arrangement %s %d' % (' '.join(w), e), w, cpus[k % 3], 60 + k, errors=e))
    # wrong command lines
    J.append(wrongline('no input', [], ['-s'], ['-slx'], ['-o', 'o.hex'], ['-o', 'a.asm'], ['-l', '-so', 'a.asm'], ['-']))
    J.append(wrongline('two inputs', ['a.asm', 'a.asm'], ['a.asm', 'f'], ['-o', 'o.hex', 'a.asm', 'f'], ['a.asm', '-o', 'o.hex', '?'], ['?', '-l', 'a.asm'], ['f', 'a.asm', '-x'], ['nosuch', 'a.asm']))
    J.append(wrongline('unknown option', ['-q', 'a.asm'], ['a.asm', '-o', 'o.hex', '-h'], ['--help'], ['-slxh', 'a.asm'], ['-S', '-o', 'o.hex', 'a.asm'], ['-o', 'o.hex', 'a.asm', '--'], ['-O', 'o.hex', 'a.asm'], ['-l1', 'a.asm'], ['a.asm', '-s x']))
    # other names of the code file; sources and code files which cannot be opened
    def names(j):
        al = [['-o', n, 'a.asm'] for n in ('x', 'o.s19', 'code', '-l', '-', 'A.ASM', 'very-long-name-of-a-code-file.with.dots', 'with blank')]
        def orc(path, refs, runs):
            for a, r in zip(al, runs):
                if not r.has(a[1]):
                    path.fail('no code file %s' % a[1]); continue
                equal(path, r.file(a[1]), refs[0].file('o.hex'), 'another code file under another name')
                if any(not k.startswith('<') and k != a[1] for k in r._f):
                    path.fail('a file besides %s' % a[1])
                equal(path, r.listing, refs[0].listing, 'another listing with another name of the code file')
        return al, orc
    J.append(plan('names', 'z80', 3, 10, names))
    def fatal(name, mkrun, msg, code=True):
        j = job(name, maxpaths=200)
        v = j.bits(4)
        t, files = program(random.Random(7), '6502', v, 12)
        files = dict(files, **{'a.asm': t})
        mkrun(j, files)
        def orc(job, path):
            for r in path.runs:
                ls = Listing(r.listing)
                if r.status != 'exit' or r.code == 0 or not ls.fatal or not re.search(msg, ls.fatal[0]):
                    path.fail('%s: not reported as failure: %s, %s' % (name, r.code, ls.fatal))
                if any(not k.startswith('<') for k in r._f) or r.gone:
                    path.fail('%s: files are changed' % name)
                if ls.tailline(r'^Successful')[0] is not None:
                    path.fail('%s: success reported' % name)
        j.oracle = orc
        J.append(j)
    def r1(j, f):
        old = dict(f, **{'o.hex': 'old'})
        for n in ('nosuch', 'nodir/a.asm', 'a', 'A.asm', 'a.asm.asm', ''):
            j.add(old, args=['crasm', '-o', 'o.hex', n])
        for e in (1, 2, 13, 24):
            j.add(old, args=['crasm', 'a.asm', '-o', 'o.hex'], faults=[Fault('open', 'ra.asm', err=e)])
    fatal('source cannot be opened', r1, 'source')
    def r2(j, f):
        for e in (2, 13, 21, 28, 30):
            for o in ([], ['-l'], ['-slx']):
                j.add(dict(f, **{'o.hex': 'old'}), args=['crasm', '-o', 'o.hex'] + o + ['a.asm'], faults=[Fault('open', 'wo.hex', err=e)])
    fatal('code file cannot be opened', r2, 'code')
    # writing the code file fails
    size = lambda ref: len(ref.file('o.hex').items) if ref.has('o.hex') else None
    for k, fmt in enumerate((None, 'HEX', 'SCODE')):
        for base in (0, 128) if not big else (0, 128, 256):
            for once in (False, True):
                J.append(fault('write fails %s from %d %s' % (fmt, base, once), cpus[k], 80 + k, 34, at('write', 'o.hex', base, 7, size, once), args=((), ('-l',), ('-slx',))[(k + once) % 3], fmt=fmt, vbits=2))
    for k, cpu in enumerate(cpus):
        J.append(fault('close fails %s' % cpu, cpu, 90 + k, 20, at('close', 'o.hex', 0, 1, lambda ref: 1 if ref.has('o.hex') else None), args=((), ('-l',))[k % 2]))
        def both(j):
            a, b = j.count(5), j.count(5)
            return [Fault('write', 'o.hex', 0, a, 8), Fault('close', 'o.hex', 0)], lambda path, ref: True
        J.append(fault('write and close fail %s' % cpu, cpu, 95 + k, 20, both, vbits=1))
    J.append(fault('write fails with errors', '6502', 99, 30, at('write', 'o.hex', 0, 7, lambda ref: None), errors=True, vbits=2))
    # reading a source fails
    for k, cpu in enumerate(cpus):
        for base in (0, 128, 256):
            J.append(fault('read fails %s from %d' % (cpu, base), cpu, 100 + k, 30, at('read', 'a.asm', base, 7, lambda ref: len(ref.spec.files['a.asm']), err=5), args=((), ('-l',))[k % 2], errors=k == 2, vbits=1))
        # with an included file
        def inc(j):
            c = j.count(5)
            return [Fault('read', 'f', 0, c, err=21)], lambda path, ref: split(path, z3.ULT(c.bv, len(ref.spec.files['f'])))
        J.append(fault('read of an included file fails %s' % cpu, cpu, 110 + k, 30, inc, vbits=1))
        # opening an included file fails in the first, in the second pass, in both, the n-th time
        for once in (False, True):
            J.append(fault('open of an included file fails %s %s' % (cpu, once), cpu, 110 + k, 30, at('open', 'rf', 0, 4, lambda ref: None, once, err=13), vbits=1))
        def never(j):
            return [Fault('open', 'rf', 0, err=2)], lambda path, ref: True
        J.append(fault('included file missing %s' % cpu, cpu, 110 + k, 30, never))
        def closes(j):
            return [Fault('close', 'rf', 0, err=5)], lambda path, ref: None
        J.append(fault('close of an included file fails %s' % cpu, cpu, 110 + k, 30, closes))
    # memory
    for k, cpu in enumerate(cpus):
        for once in (False, True):
            for errors in (False, True):
                J.append(fault('memory fails %s %s %d' % (cpu, once, errors), cpu, 120 + k, 30, at('malloc', '*', 0, 7, lambda ref: None, once, err=12), errors=errors, args=((), ('-l',))[k % 2], vbits=1))
        def first(j):
            return [Fault('malloc', '*', 0, err=12)], lambda path, ref: True
        J.append(fault('no memory %s' % cpu, cpu, 120 + k, 10, first))
        def many(j):
            c = j.count(5)
            return [Fault('malloc', '*', 0, c, 1, err=12)], lambda path, ref: None
    # standard output
    for k, cpu in enumerate(cpus):
        for base in (0, 1024) if not big else (0, 256, 512, 1024, 2048, 3072):
            for once in (False, True):
                J.append(fault('listing cannot be written %s from %d %s' % (cpu, base, once), cpu, 130 + k, 20, at('write', '<stdout>', base, 6, lambda ref: None, once, 16), args=((), ('-l',))[k % 2], output=False, errors=k == 1, vbits=1))
    return J
