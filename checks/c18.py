"""C18: listing options and directives select what is listed, and nothing else."""
import random, z3
from tmpl import *
from lst import R, check, check_row, show, same
from asm import must_image, Listing

from world import series, bounds
BOUNDS = ('random programs of some 60 lines with labels, macros, nested calls, included files, conditionals and LIST, CLIST, ILIST, MLIST, NAM, PAGE, SKIP at any place, also in macros, files and under symbolic conditions; every combination of the options -l, -s, -x; '
          'lines with errors and warnings in parts which are not listed; all values of operands, conditions and skips')
BOUNDS += bounds('C18')
OUTSIDE = 'whether the lines IF, ELSE and ENDC themselves are listed under CLIST OFF; LIST in macros but for its last line; MLIST, SKIP and PAGE in macros'


class Gen:
    def __init__(self, j, cpu, seed, dirs=True, cond=True):
        self.j, self.cpu, self.rnd = j, cpu, random.Random(seed)
        self.files, self.dirs, self.nf = {}, dirs, 0
        self.v = j.bits(8)
        self.c = [j.bits(1) for _ in range(2)] if cond else []
        self.k = 0

    # a program is a list of nodes: (kind, text, ...)
    def body(self, n, depth, inmac=False, infile=False):
        r, out = self.rnd, []
        for _ in range(n):
            self.k += 1
            x = r.randrange(16 if self.dirs else 9)
            if x < 2:
                out.append(('code', ' db %s,%d' % (self.v, self.k & 255), [self.v.bv, self.k & 255]))
            elif x == 2:
                out.append(('code', 'l%d db 1 ; label' % self.k, [1]) if not inmac else ('code', ' ds 2,%s' % self.v, [self.v.bv] * 2))
            elif x == 3:
                out.append(('plain', r.choice((';comment', '; x', '    ; y'))) if not inmac else ('plain', ' nop') if 0 else ('code', ' db 7', [7]))
            elif x == 4 and not inmac:
                out.append(('eq', 'e%d equ %s' % (self.k, self.v), self.v.bv))
            elif x == 5 and depth:
                a, b = self.body(r.randrange(0, 3), depth - 1, inmac, infile), self.body(r.randrange(0, 3), depth - 1, inmac, infile)
                c = r.choice(self.c) if self.c else None
                out.append(('if', c, ' if %s' % (c.text if c else '1'), a, ' else', b, ' endc'))
            elif x == 6 and depth and not inmac:
                out.append(('call', self.k, ' %%s %d' % (self.k & 63)))
            elif x == 7 and depth and not inmac:
                nm = 'f%d' % self.k
                out.append(('inc', nm, ' include ' + nm, self.body(r.randrange(0, 5), depth - 1, False, True)))
            elif x in (9, 10, 11) and not inmac:
                out.append(('list', ' list ' + r.choice(('on', 'OFF', 'off')) + r.choice(('', ' ; l'))))
            elif x == 12 and not inmac:
                out.append(('mlist', ' mlist ' + r.choice(('on', 'off', 'ON'))))
            elif x == 13:
                out.append(('ilist', ' ilist ' + r.choice(('on', 'off'))))
            elif x == 14 and not inmac and depth == self.top:
                out.append(('clist', ' clist ' + r.choice(('on', 'off'))))
            elif x == 15:
                out.append(('plain', r.choice((' skip 3', ' page', ' skip %s' % 0, ' skip 100'))))
            else:
                out.append(('code', ' db %d' % (self.k & 127), [self.k & 127]))
        return out

    def build(self, n, depth=2):
        self.top = depth
        self.macs = {'m1': self.body(4, 1, True) + ([('list', ' list ' + self.rnd.choice(('on', 'off')))] if self.dirs else []), 'm2': self.body(2, 1, True) + [('call', 0, ' m1 5')] + self.body(2, 1, True)}
        self.main = self.body(n, depth)
        def fix(nodes):
            r = []
            for x in nodes:
                if x[0] == 'call':
                    x = ('call', self.rnd.choice(('m1', 'm2')) if x[1] else 'm1', x[2])
                    if '%s' in x[2]:
                        x = (x[0], x[1], x[2] % x[1])
                elif x[0] == 'if':
                    x = x[:3] + (fix(x[3]), x[4], fix(x[5]), x[6])
                elif x[0] == 'inc':
                    x = x[:3] + (fix(x[3]),)
                r.append(x)
            return r
        self.main = fix(self.main)
        self.macs = {k: fix(v) for k, v in self.macs.items()}
        return self

    @staticmethod
    def flat(nodes):
        r = []
        for x in nodes:
            if x[0] == 'if':
                r += [x[2]] + Gen.flat(x[3]) + [x[4]] + Gen.flat(x[5]) + [x[6]]
            elif x[0] in ('call', 'inc'):
                r.append(x[2])
            else:
                r.append(x[1])
        return r

    def source(self):
        pre = [' cpu ' + self.cpu]
        for m, b in self.macs.items():
            pre += [m + ' macro'] + self.flat(b) + [' endm']
        pre.append(' * = $1000')
        self.pre = pre
        files = {}
        def walk(nodes):
            for x in nodes:
                if x[0] == 'inc':
                    files[x[1]] = ''.join(t + '\n' for t in self.flat(x[3])); walk(x[3])
                elif x[0] == 'if':
                    walk(x[3]); walk(x[5])
        walk(self.main)
        files['a.asm'] = ''.join(t + '\n' for t in pre + self.flat(self.main))
        return files

    def rows(self, sel, list0=True):
        """expected rows; sel: {condition index: bool}"""
        S = dict(list=list0, mlist=False, ilist=False, clist=True)
        nolist = not list0
        rows, code = [], []
        pc = 0x1000
        def put(bs):
            nonlocal pc
            r = [(pc + i, b) for i, b in enumerate(bs)]
            code.extend(r)
            pc += len(bs)
            return r
        n = 0
        for t in self.pre:
            n += 1
            if S['list']:
                rows.append(R(t, num=n, eq=0x1000 if t == ' * = $1000' else None))
        def emit(t, bs, eq, n, pfx, mac, show, opt=False):
            if S['list'] and show:
                r = R(t.split(';')[0] if mac else t, bs, eq=eq, num=None if pfx else n, pfx=pfx)
                r.opt = opt
                rows.append(r)
        def walk(nodes, n, pfx, mac, active, show, held):
            """show: lines of this part are listed (if LIST is on); held: bytes of the calling line"""
            for x in nodes:
                n += 1
                k = x[0]
                if not active:
                    if k == 'if':
                        emit(x[2], [], None, n, pfx, mac, show, True)
                        n = walk(x[3], n, pfx, mac, False, show, held)
                        n += 1; emit(x[4], [], None, n, pfx, mac, show, True)
                        n = walk(x[5], n, pfx, mac, False, show, held)
                        n += 1; emit(x[6], [], None, n, pfx, mac, show, True)
                    else:
                        emit(x[2] if k in ('call', 'inc') else x[1], [], None, n, pfx, mac, show)
                    continue
                if k == 'if':
                    c = x[1] is None or sel[self.c.index(x[1])]
                    opt = not S['clist']
                    emit(x[2], [], None, n, pfx, mac, show, opt)
                    cl = S['clist']
                    n = walk(x[3], n, pfx if c else 'C', mac, c, show and (c or cl), held)
                    n += 1; emit(x[4], [], None, n, pfx, mac, show, opt)
                    n = walk(x[5], n, pfx if not c else 'C', mac, not c, show and (not c or cl), held)
                    n += 1; emit(x[6], [], None, n, pfx, mac, show, opt)
                elif k in ('list', 'mlist', 'ilist', 'clist'):
                    on = 'on' in x[1].lower().split()
                    S[k] = on and not (k == 'list' and nolist)
                    emit(x[1], [], None, n, pfx, mac, show)
                elif k == 'call':
                    old = S['list']
                    if S['mlist']:
                        emit(x[2], [], None, n, pfx, mac, show)
                        walk(self.macs[x[1]], 0, 'M', True, True, show, held)
                        S['list'] = old
                    else:
                        h = []
                        walk(self.macs[x[1]], 0, 'M', True, True, False, h)
                        S['list'] = old
                        if held is not None:
                            held.extend(h)
                        emit(x[2], h if held is None else h, None, n, pfx, mac, show)
                elif k == 'inc':
                    old = S['list']
                    emit(x[2], [], None, n, pfx, mac, show)
                    if not S['ilist']:
                        S['list'] = False
                    walk(x[3], 0, pfx, mac, True, show, held)
                    S['list'] = old
                else:
                    bs = put(x[2]) if k == 'code' else []
                    if held is not None:
                        held.extend(bs)
                    emit(x[1], bs, x[2] if k == 'eq' and show else None, n, pfx, mac, show)
            return n
        walk(self.main, n, None, False, True, True, None)
        return rows, code


def check_opt(path, job, rows, run=0):
    """like lst.check, with rows which may be missing"""
    ls = Listing(path.runs[run].listing)
    got = [r for r in ls.rows if r.text.items or r.code]
    i = 0
    for e in rows:
        if not e.text.strip():
            continue
        if getattr(e, 'opt', False) and (i >= len(got) or (got[i].num, got[i].prefix, got[i].src().rstrip()) != (e.num, e.pfx, shape(e.text))):
            continue
        if i >= len(got):
            path.fail('%s: missing from the listing' % show(e.text)); return ls
        if not check_row(path, job, got[i], e, 'listed line (%s)' % show(e.text)):
            return ls
        i += 1
    if i < len(got):
        path.fail('a line is listed which should not be: %r' % got[i])
    return ls


def shape(t):
    return ''.join(c if ord(c) < 0xE000 else '\ue000' for c in t)


def prog(name, cpu, seed, n, args, **kw):
    j = job(name, maxpaths=200)
    g = Gen(j, cpu, seed).build(n)
    f = g.source()
    opts = ''.join(a[1:] for a in args if a[0] == '-' and a != '-o')
    def orc(job, path, g=g):
        sel = [path.split(c.bv == 1) for c in g.c]
        rows, code = g.rows(sel, 'l' not in opts)
        r = path.runs[0]
        ls = check_opt(path, job, rows)
        if ls.errors:
            path.fail('unexpected error %s' % (ls.errors[0],)); return
        if r.has('o.hex'):
            must_image(path, r.file('o.hex'), code)
        elif code:
            path.fail('no code file')
        tab = bool(ls.symbols())
        if tab != ('x' in opts or 'l' not in opts):
            path.fail('symbol table %s' % ('printed in spite of -l' if tab else 'missing'))
    j.oracle = orc
    j.add(f, args=['crasm', '-o', 'o.hex'] + args + ['a.asm'])
    return j


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for seed in range(24 if not big else 150):
        cpu = ('6502', '6800', 'z80')[seed % 3]
        args = [[], [], ['-x'], ['-s'], ['-l'], [], ['-l', '-x'], ['-sl']][seed % 8]
        J.append(prog('%s program %d %s' % (cpu, seed, ' '.join(args)), cpu, seed, 30 if not big else 30 + seed // 3, args))
    # the same program under all options: same code, same counts, same errors
    for errs in (0, 1):
        for opts in ('', 'l', 's', 'x', 'ls', 'lx', 'sx', 'lsx', 'xsl'):
            J.append(options(opts, errs))
    # each directive in each spelling, on and off at once, by a symbolic choice
    J += onoff()
    # blank lines
    for l in (0, 1):
        j = job('skip %d' % l, maxpaths=300)
        n = j.bits(7)
        def orc(job, path, n=n, l=l):
            r = path.runs[0]
            k = path.which(n.bv, range(128))
            if k is None:
                return
            ls = Listing(r.listing)
            must_image(path, r.file('o.hex'), [(0x100, 1), (0x101, 2)])
            if (k > 100) != bool(ls.warnings) and l == 0:
                path.fail('SKIP: warning')
            txt = [o.shape for o in r.listing.lines()]
            if l:
                return
            a = [i for i, s in enumerate(txt) if s.endswith('db 1')]
            b = [i for i, s in enumerate(txt) if 'skip' in s]
            if len(a) != 1 or len(b) != 1:
                path.fail('lines missing'); return
            blank = sum(1 for s in txt[a[0] + 1:b[0]] if not s.strip())
            if blank != (k if k <= 100 else 0):
                path.fail('SKIP %d gave %d empty lines' % (k, blank))
        j.oracle = orc
        j.add(' cpu 6502\n page 0,76\n * = $100\n db 1\n skip %s\n db 2\n' % n, args=['crasm', '-o', 'o.hex'] + (['-l'] if l else []) + ['a.asm'])
        J.append(j)
    J += series('C18', tier)
    return J


def options(opts, errs):
    j = job('options -%s%s' % (opts, ' with errors' if errs else ''), maxpaths=100)
    v, b = j.bits(8), j.bits(1)
    src = [' cpu 6502', 'm macro', ' db \\1', ' db $1\\1', ' endm', ' * = $1000', 'lab db %s' % v, ' dw $12345', ' m 05', ' list off', ' db 300', ' list on', ' lda #lab>>8']
    code = [v.bv, 0x45, 0x23, 5, None, 300 & 255]
    if errs:
        src += [' nosuch', ' list off', ' fail here', ' list on', ' if %s' % b, ' foo', ' endc']
    text = ''.join(s + '\n' for s in src)
    def run(args):
        j.add({'a.asm': text}, args=args)
    run(['crasm', '-o', 'o.hex', 'a.asm'])
    alt = ['crasm'] + (['-' + opts] if opts else []) + ['-o', 'o.hex', 'a.asm']
    run(alt)
    run(['crasm', 'a.asm'] + ['-' + c for c in opts])
    def orc(job, path):
        r0, r1, r2 = path.runs
        l0, l1, l2 = (Listing(r.listing) for r in path.runs)
        if r0.has('o.hex') != r1.has('o.hex') or r0.has('o.hex') != (not errs):
            path.fail('code file with one of the options only'); return
        if any(f.endswith('hex') for f in r2._f):
            path.fail('code file without -o')
        if r0.has('o.hex'):
            a, b_ = r0.file('o.hex'), r1.file('o.hex')
            if len(a.items) != len(b_.items):
                path.fail('options change the code file'); return
            for x in range(len(a.items)):
                path.must(z3.simplify(a.bv(x) == b_.bv(x)), 'options change the code file')
        for l in (l1, l2):
            if [e for e in l.errors] != [e for e in l0.errors]:
                path.fail('the options hide or change errors: %s' % opts)
            if 's' in opts and l.warnings:
                path.fail('warnings in spite of -s')
            e, m = l.tailline(r'^ERRORS: +(\d+)')
            e0, m0 = l0.tailline(r'^ERRORS: +(\d+)')
            if not m or not m0 or m.group(1) != m0.group(1):
                path.fail('the options change the number of errors')
            if 's' not in opts:
                w, m = l.tailline(r'^WARNINGS: +(\d+)')
                w0, m0 = l0.tailline(r'^WARNINGS: +(\d+)')
                if not m or m.group(1) != m0.group(1):
                    path.fail('the options change the number of warnings')
            tab = bool(l.symbols())
            if tab != ('x' in opts or 'l' not in opts and not errs):
                path.fail('symbol table %s' % ('printed' if tab else 'missing'))
            want = [r for r in l0.rows if 'l' not in opts or r.errors]
            if [(r.num, r.prefix, r.src()) for r in want] != [(r.num, r.prefix, r.src()) for r in l.rows]:
                path.fail('-%s changes the lines listed' % opts)
    j.oracle = orc
    return j


def onoff():
    J = []
    for k, (d, text) in enumerate((('list', ' db %s'), ('mlist', ' m %s'), ('clist', ' if %s<0\n db 5\n endc'), ('ilist', ' include f'))):
        for off in ('off', 'OFF', 'Off ', ' off', 'off ; x'):
            j = job('%s %s' % (d, off), maxpaths=100)
            v, b = j.bits(8), j.bits(2)
            t = text % v if '%s' in text else text
            src = [' cpu 6800', 'm macro', ' db \\1', ' endm', ' * = $100', ' db 1']
            on = off.lower().replace('off', 'on')
            src += [' if %s&1' % b, ' %s %s' % (d, off), ' else', ' %s %s' % (d, on), ' endc', t, ' list on', ' %s %s' % (d, on), ' if %s&2' % b, ' %s %s' % (d, off), ' endc'] + t.split('\n') + [' list on', ' db 2']
            src = [l for s in src for l in s.split('\n')]
            def orc(job, path, d=d, v=v, b=b, src=src):
                f = [not path.split(z3.Extract(0, 0, b.bv) == 1), not path.split(z3.Extract(1, 1, b.bv) == 1)]
                r = path.runs[0]
                ls = Listing(r.listing)
                if ls.errors:
                    path.fail('unexpected error %s' % (ls.errors[0],)); return
                one = [v.bv] if d in ('list', 'mlist') else [] if d == 'clist' else [6]
                must_image(path, r.file('o.hex'), [(0x100 + i, x) for i, x in enumerate([1] + one + one + [2])])
                # how often the line in question is listed
                if d == 'list':
                    rows = [x for x in ls.rows if x.num in (12, 18) ]
                    want = [n for n, o in zip((12, 18), f) if o]
                    got = [x.num for x in rows]
                elif d == 'mlist':
                    got = [x.src().strip()[:2] for x in ls.rows if x.prefix == 'M']
                    want = ['db'] * sum(f)
                elif d == 'clist':
                    got = [1 for x in ls.rows if x.prefix == 'C' and x.src().strip() == 'db 5']
                    want = [1] * sum(f)
                else:
                    got = [1 for x in ls.rows if x.src().strip() == 'db 6']
                    want = [1] * sum(f)
                if got != want:
                    path.fail('%s does not select what is listed: %s instead of %s' % (d.upper(), got, want))
            j.oracle = orc
            j.add({'a.asm': ''.join(s + '\n' for s in src), 'f': ' db 6\n'})
            J.append(j)
    for on in (0, 1):
        j = job('mlist in a macro, %d' % on, maxpaths=100)
        v, b = j.bits(8), j.bits(1)
        src = [' cpu 6800', 'm macro', ' db \\1', ' if %s' % b, ' mlist %s' % ('off' if on else 'on'), ' endc', ' db 2', ' endm', ' * = $100', ' mlist %s' % ('on' if on else 'off'), ' m %s' % v, ' db 9']
        def orc(job, path, v=v, on=on):
            r = path.runs[0]
            ls = Listing(r.listing)
            must_image(path, r.file('o.hex'), [(0x100, v.bv), (0x101, 2), (0x102, 9)])
            calls = [x for x in ls.rows if x.num == 11]
            if len(calls) != 1:
                path.fail('the call is listed %d times' % len(calls)); return
            last = ls.row(12)
            bs, ok = last.bytes()
            path.must(len(bs) == 1 and z3.simplify(bs[0] == 9), 'code shown at a wrong line')
            bs, ok = calls[0].bytes()
            path.must(len(bs) == (0 if on else 2), 'code of the call')
        j.oracle = orc
        j.add(''.join(s + '\n' for s in src))
        J.append(j)
    # malformed
    j = job('malformed')
    v = j.bits(8)
    bad = [l for d in ('list', 'mlist', 'clist', 'ilist') for l in (' %s' % d, ' %s maybe' % d, ' %s on off' % d, ' %s 1' % d, ' %s onn' % d)] + [' page 66', ' page 5,76', ' page 201,76', ' page 66,38', ' page 66,1000', ' page ,', ' page 66,', ' nam', ' nam ' + 'x' * 31, ' page 66,76,1', ' skip', ' skip x', 'l page 66,76' if 0 else ' page x,y']
    def orc(job, path, bad=bad):
        ls = Listing(path.runs[0].listing)
        for n, t in enumerate(bad, 3):
            r = ls.row(n)
            if r is None or not r.errors:
                path.fail('%s must be refused' % t)
        if path.runs[0].has('o.hex'):
            path.fail('code file in spite of errors')
    j.oracle = orc
    j.add(' cpu 6502\n * = $100\n' + ''.join(b + '\n' for b in bad) + ' db %s\n' % v)
    J.append(j)
    return J
