"""C21: the symbol table."""
import random, re, z3
from tmpl import *
from asm import Listing, HX
from world import series, bounds

BOUNDS = ('programs of 1 to 250 labels (thorough: 1500) with random names of 1 to 36 characters, defined as addresses (symbolic 16-bit origin and gaps; 32-bit without CPU), by EQU (symbolic values, bits of symbolic addresses, registers) once or repeatedly, in macros, included files and conditionals (symbolic '
          'conditions), referenced before, after, both, never or only in parts which are not assembled; up to 3 names with symbolic letters, digits, periods and underscores among others; local labels; pages of 62 to 250 columns and 0 or 10 to 66 rows; with and without errors, -x and -l')
BOUNDS += bounds('C21')
OUTSIDE = 'names of more than 48 characters; the mark of a label defined by EQU from a label defined later, of macros and of keyword aliases; labels defined twice; pages narrower than 62 columns'
COL = 61
NAMECH = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.'
FIRST = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'


def table(path, ls):
    """[(mark, value Out or None, type, name Out)] as printed, or None"""
    out, on = [], False
    for o in ls.tail:
        s = o.shape
        if re.match(r'^ Code length|^No code gen', s):
            on = True
            continue
        if not on or not s.strip():
            continue
        n = len(s)
        for k in range(0, n, COL):
            e = s[k:k + COL]
            if not e.strip():
                continue
            # without CPU there are 8 digits, and the name follows the type immediately; after Register(s) too
            m = re.match(r'^([ ?^])(?:([%s]{4}|[%s]{8}) | {2,})? *(Abs|Rel|Macro|Undefined|Register\(s\)|Bit-?\d+|Mnemonic)( *)' % (HX, HX), e)
            if not m or m.group(4) == '' and len(m.group(2) or '') != 8 and m.group(3) != 'Register(s)':
                path.fail('malformed symbol table line: ' + repr(s)); return None
            name = e[m.end(4):].rstrip()
            val = o.sub(k + m.start(2), k + m.end(2)) if m.group(2) else None
            out.append((m.group(1), val, m.group(3), o.sub(k + m.end(4), k + m.end(4) + len(name))))
    return out


def upper(b):
    return z3.simplify(z3.If(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), b - 32, b))


class Sym:
    """an entry which must be there; name: list of ints / bv8 (upper case)"""
    def __init__(self, name, value=None, mark=None, type='Abs'):
        self.name = [ord(c) for c in name.upper()] if isinstance(name, str) else name
        self.value, self.mark, self.type, self.kind = value, mark, type, ''

    def show(self):
        return ''.join(chr(c) if isinstance(c, int) else '?' for c in self.name)


def less(path, a, b):
    """a < b; None when equal (case split on symbolic characters)"""
    for i in range(max(len(a), len(b))):
        x, y = (s[i] if i < len(s) else 0 for s in (a, b))
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return x < y
            continue
        x, y = (z3.BitVecVal(c, 8) if isinstance(c, int) else c for c in (x, y))
        if path.split(z3.simplify(x == y)):
            continue
        return path.split(z3.simplify(z3.ULT(x, y)))
    return None


def ordered(path, syms):
    """sorted by name; None when two are equal"""
    out = []
    for s in sorted(syms, key=lambda s: [c if isinstance(c, int) else 64 for c in s.name]):
        lo, hi = 0, len(out)
        while lo < hi:
            m = (lo + hi) // 2
            l = less(path, out[m].name, s.name)
            if l is None:
                return None
            if l:
                lo = m + 1
            else:
                hi = m
        out.insert(lo, s)
    return out


def check(path, syms, digits, errors=False, present=True):
    r = path.runs[0]
    ls = Listing(r.listing)
    if bool(ls.errors) != errors:
        path.fail('unexpected error: %s' % (ls.errors[0],) if ls.errors else 'no error'); return
    t = table(path, ls)
    if t is None:
        return
    if not present:
        if t:
            path.fail('an unexpected symbol table')
        return
    exp = ordered(path, syms)
    if exp is None:
        path.fail('two equal names accepted'); return
    if len(t) != len(exp):
        have, want = [e[3].shape for e in t], [s.show() for s in exp]
        path.fail('%d symbols listed instead of %d: missing %s, excess %s' % (len(t), len(exp), [x for x in want if x not in have][:5], [x for x in have if x not in want][:5])); return
    for e, s in zip(t, exp):
        mark, val, typ, name = e
        if len(name.items) != len(s.name):
            path.fail('symbol table: %s where %s should be' % (name.shape, s.show())); return
        c = []
        for k, x in enumerate(s.name):
            y = name.bv(k)
            z = z3.simplify(y == (z3.BitVecVal(x, 8) if isinstance(x, int) else x))
            if z3.is_false(z):
                path.fail('symbol table: %s where %s should be' % (name.shape, s.show())); return
            if not z3.is_true(z):
                c.append(z)
        for z in c:
            path.must(z, 'wrong name or order in the symbol table')
        if typ != s.type:
            path.fail('symbol table: %s has type %s instead of %s' % (s.show(), typ, s.type))
        if s.mark is not None and mark != s.mark:
            path.fail('symbol table: %s is marked "%s" instead of "%s"' % (s.show(), mark, s.mark))
        if s.value is not None:
            if val is None or len(val.items) != digits:
                path.fail('symbol table: no value, or not of %d digits, for %s' % (digits, s.show())); continue
            v, ok = val.hexnum(0, digits)
            path.must(ok, 'symbol table: the value is no hexadecimal number')
            w = s.value if not isinstance(s.value, int) else z3.BitVecVal(s.value, 32)
            w = z3.ZeroExt(32 - w.size(), w) if w.size() < 32 else w
            path.must(z3.simplify(v == z3.Extract(4 * digits - 1, 0, w)), 'symbol table: wrong value of ' + s.show())
        elif val is not None and typ in ('Macro', 'Undefined', 'Register(s)', 'Mnemonic'):
            path.fail('symbol table: a value for ' + s.show())


RESERVED = set('A B C D E H L I R X Y AF BC DE HL SP IX IY NZ Z NC C PO PE P M MAC'.split())


def names(rnd, n, taken=()):
    out, seen = [], {t.upper() for t in taken}
    while len(out) < n:
        k = rnd.choice((1, 2, 2, 3, 4, 6, 8, 12, 20, 35, 36))
        base = rnd.choice(out) if out and rnd.randrange(4) == 0 else ''
        s = (base[:rnd.randrange(len(base) + 1)] + ''.join(chr(rnd.choice(NAMECH)) for _ in range(k)))[:36]
        if chr(s[0].encode()[0]) in '0123456789.' or s.upper() in seen or len(s) < 4:
            if len(s) >= 4 or s.upper() in seen or s[0] in '0123456789.':
                continue
            s += '_' * (4 - len(s))
            if s.upper() in seen:
                continue
        if s.upper().split('.')[0] in MNEM:
            continue
        seen.add(s.upper())
        out.append(s)
    return out


MNEM = set('EQU ASC ALIGN CLIST CODE CPU DB DDB DL DW DUMMY DS ELSE ENDC ENDM EXITM FAIL IF ILIST INCLUDE LIST MACRO MLIST NAM PAGE OUTPUT SKIP'.split())


def random_program(name, cpu, seed, n, page=None, args=(), errors=False, present=True, wide=False):
    rnd = random.Random(seed)
    j = job(name, maxpaths=200, maxtime=100)
    o, g, v = j.bits(12, prefix='%001' if cpu else '%00010010001101000001'), j.bits(5), j.bits(16)
    cond = j.bits(1)
    pc = z3.Concat(z3.BitVecVal(1 if cpu else 0x12341, 20), o.bv)
    nm = names(rnd, n)
    src = [' cpu ' + cpu] if cpu else []
    if page:
        src.append(' page %d,%d' % page)
    src += [' * = ' + o.text]
    head, chead = [], []
    syms, body, files = [], [], {}
    addr = pc
    gapped = 0
    for k, x in enumerate(nm):
        kind = rnd.choice(('addr', 'addr', 'addr', 'equ', 'equ2', 'macro', 'alone', 'inc', 'if', 'mlab', 'local', 'skipped')) if k else 'addr'
        use = rnd.randrange(5)
        spell = lambda: ''.join(rnd.choice((c.lower(), c.upper())) for c in x)
        S = Sym(x)
        if kind in ('macro', 'local', 'skipped'):
            if kind == 'macro':
                S.type = 'Macro'
                body += [x + ' macro', ' db 1', ' endm']
                if use:
                    body.append(' ' + spell())
                    addr = z3.simplify(addr + 1)
                syms.append(S)
            elif kind == 'local':
                body += [('.' + x)[:36] + ' db 1', ' dw ' + ('.' + spell())[:36]]
                addr = z3.simplify(addr + 3)
                if rnd.randrange(3) == 0:
                    body.append(' code')
            else:
                body += [' if 0', x + ' db 1', ' dw ' + x, ' endc']
            # nothing of it is listed, if not a macro
            continue
        before, after = use in (1, 3), use in (2, 3)
        if kind == 'equ2':
            before = False
        S.mark = '^' if before else ' ' if after else '?'
        if kind not in ('equ2', 'if') and rnd.randrange(6) == 0:
            # referenced before or after under a condition only
            after_c = None
            S.cmark = ('^', S.mark) if rnd.randrange(2) else (S.mark if before else ' ', S.mark)
            if S.cmark[0] == '^' and not before:
                chead.append(spell())
            elif not before:
                after_c = spell()
        else:
            after_c = None
        if before:
            head.append(' dw %s-%s+1' % (spell(), spell()))
        if kind in ('addr', 'alone', 'inc', 'mlab'):
            S.kind = 'addr'
            if gapped < 3 and rnd.randrange(3) == 0:
                body.append(' ds %d' % k if k % 2 else ' * = *+' + g.text)
                addr = z3.simplify(addr + (k if k % 2 else z3.ZeroExt(27, g.bv)))
                gapped += 1
            if kind == 'inc':
                f = 'f%d' % k
                files[f] = x + ' db 5\n'
                body.append(' include ' + f)
                S.value, addr = addr, z3.simplify(addr + 1)
            elif kind == 'mlab':
                body.append(' deflab ' + x)
                S.value, addr = addr, z3.simplify(addr + 2)
            elif kind == 'alone':
                body.append(x)
                S.value = addr
            else:
                body.append(x + rnd.choice((' db 1', ' ds 1', ' asc "a"')))
                S.value, addr = addr, z3.simplify(addr + 1)
        elif kind in ('equ', 'equ2'):
            if kind == 'equ2':
                body.append('%s = %d' % (spell(), rnd.randrange(65536)))
                if after:
                    body.append(' dw ' + spell())
                    addr = z3.simplify(addr + 2)
            c = rnd.choice((v, None))
            if c is None:
                S.value = rnd.choice((0, 1, 255, 256, 65535, rnd.randrange(65536)) if cpu else (0, 65536, 0x7fffffff, 0xffffffff, rnd.randrange(1 << 32)))
                body.append('%s equ %d' % (x, S.value))
            else:
                S.value = z3.ZeroExt(16, v.bv)
                body.append('%s = %s' % (x, v))
        else:
            body += [' if ' + cond.text, x + ' = 5', ' else', x + ' = 6', ' endc']
            S.kind = 'cond'
        if after:
            body.append(' dw ' + spell())
            addr = z3.simplify(addr + 2)
        elif use == 4:
            # only where it is not assembled, or in the label itself
            body += rnd.choice(([' if 0', ' dw ' + x, ' endc'], ['; ' + x], [' asc "%s"' % x[:3], '; '], [' if 1', ' else', ' db ' + x, ' endc']))
            if body[-1] == '; ' and body[-2].startswith(' asc'):
                addr = z3.simplify(addr + 3)
        if after_c:
            # DUMMY: the addresses do not depend on the condition
            body += [' if ' + cond.text, 'q_%d = %s' % (k, after_c), ' endc']
            q = Sym('q_%d' % k, None)
            q.kind = 'present'
            syms.append(q)
        syms.append(S)
    if chead:
        head += [' if ' + cond.text] + ['.q = 0*%s' % x for x in chead] + [' endc']
    delta = 2 * sum(h.startswith(' dw') for h in head)
    if errors:
        bad = [' db nosuch', ' foo', ' dw nosuch2+1']
        pos = rnd.randrange(len(body))
        body += bad
        syms += [Sym('nosuch', type='Undefined'), Sym('nosuch2', type='Undefined')]
    syms.append(Sym('deflab', type='Macro'))
    mac = ['DefLab macro', '\\1 db 1,2', ' endm']
    def orc(job, path):
        ss = []
        for s in syms:
            v = s.value
            if s.kind == 'cond':
                v = 5 if path.split(cond.bv == 1) else 6
            elif s.kind == 'addr':
                v = z3.simplify(v + delta)
            elif s.kind == 'present' and not path.split(cond.bv == 1):
                continue
            mark = s.mark
            if hasattr(s, 'cmark'):
                mark = s.cmark[0 if path.split(cond.bv == 1) else 1]
            ss.append(Sym(s.name, v, mark, s.type))
        check(path, ss, 4 if cpu else 8, errors, present)
    j.oracle = orc
    j.add({'a.asm': ''.join(l + '\n' for l in src + mac + head + body), **files}, args=('crasm', '-o', 'o.hex') + args + ('a.asm',))
    return j


def symnames(name, pat, others=(), case=None):
    """names with symbolic characters ('?'): they must stand at their place in the order, or be refused when equal"""
    j = job(name, maxpaths=900, maxtime=60)
    o = j.bits(12, prefix='%01')
    addr = z3.Concat(z3.BitVecVal(1, 20), o.bv)
    src, syms = [' cpu 6502', ' * = ' + o.text], []
    for k, p in enumerate(list(others[:len(others) // 2]) + list(pat) + list(others[len(others) // 2:])):
        cs = [j.byte(NAMECH if i else FIRST) if c == '?' else c for i, c in enumerate(p)]
        src.append(''.join(c if isinstance(c, str) else c.text for c in cs) + ' db 1')
        syms.append(Sym([ord(c.upper()) if isinstance(c, str) else upper(c.bv) for c in cs], z3.simplify(addr + k), '?'))
    def orc(job, path):
        ls = Listing(path.runs[0].listing)
        eq = ordered(path, syms) is None
        if eq:
            if not ls.errors:
                path.fail('two labels of one name accepted')
            return
        check(path, syms, 4)
    j.oracle = orc
    j.add(''.join(l + '\n' for l in src), args=('crasm', '-o', 'o.hex', 'a.asm'))
    return j


def jobs(tier):
    big = tier == 'thorough'
    J = []
    cpus = ('6502', '6800', 'z80', None)
    for k in range(72 if not big else 300):
        n = (1, 2, 3, 5, 8, 12, 20, 40)[k % 8]
        page = (None, None, (66, 76), (10, 62), (30, 130), (66, 122), (20, 200), (0, 80), (66, 121), (12, 250), (66, 183), (66, 184))[k % 12]
        args = ((), ('-x',), ('-s',))[k % 3]
        J.append(random_program('program %d' % k, cpus[k % 4], k, n, page, args))
    for k in range(6 if not big else 30):
        J.append(random_program('errors %d' % k, cpus[k % 4], 1000 + k, 10 + k, None if k % 2 else (40, 140), ('-x',), errors=True))
    for k in range(4):
        J.append(random_program('quiet %d' % k, cpus[k], 2000 + k, 9, None, ('-l',), present=False))
        J.append(random_program('errors without -x %d' % k, cpus[k], 2000 + k, 9, None, (), errors=True, present=False))
        J.append(random_program('quiet with -x %d' % k, cpus[k], 2000 + k, 9, None, ('-l', '-x')))
    for k, n in enumerate((100, 250) if not big else (100, 500, 1500)):
        for page in (None, (66, 200), (10, 62)):
            J.append(random_program('%d labels, page %s' % (n, page), cpus[k % 4], 3000 + n, n, page))
    for p in (['lab?', 'labk'], ['?abc', 'mabc'], ['l?b'], ['m?', 'm_'], ['zz?', 'ZZa', 'zz']):
        J.append(symnames('names %s' % ' '.join(p), p, ['Other1', 'last_', 'z.z', '_first', 'mIddle', 'lab_1', 'labj2']))
    J.append(symnames('names a? b', ['qq?', 'qq?'], ['qqm']))
    # labels which are bits, registers, mnemonics: with the address, once each
    for cpu in cpus:
        for part, bits in enumerate(((0, 1, 2, 3, 4), (5, 6, 7, 8), (9, 10, 15, 16), (30, 31, 32))):
            j = job('bits %s %d' % (cpu, part), maxpaths=60)
            v, w = j.bits(16 if cpu else 32), j.bits(8)
            D = v.bv if not cpu else z3.ZeroExt(16, v.bv)
            src, syms = [' cpu ' + cpu] if cpu else [], []
            src += [' * = $1000', 'addr = ' + v.text, 'zz = %d' % part]
            syms += [Sym('addr', D, ' '), Sym('zz', part, '?')]
            for k in bits:
                src += ['bit_%d = addr{%d}' % (k, k), 'copy%d = bit_%d' % (k, k), 'c%d.low = $5a00+%s{%d}' % (k, 'ADDR(copy%d)' % k, k) if False else 'c%d.low = ($5a00+%s){%d}' % (k, w, k)]
                syms += [Sym('bit_%d' % k, D, ' ', 'Bit%d' % k), Sym('copy%d' % k, D, '?', 'Bit%d' % k), Sym('c%d.low' % k, z3.Concat(z3.BitVecVal(0x5a, 24), w.bv), '?', 'Bit%d' % k)]
            reg = {'6502': ('x', 'y'), 'z80': ('hl', 'a', 'iy')}.get(cpu, ())
            for r in reg:
                src += ['is_' + r + ' = ' + r]
                syms.append(Sym('is_' + r, None, '?', 'Register(s)'))
            src += ['last_ db 1']
            syms.append(Sym('last_', 0x1000, '?'))
            j.oracle = lambda job, path, syms=syms, cpu=cpu: check(path, syms, 4 if cpu else 8)
            j.add(''.join(l + '\n' for l in src), args=('crasm', '-o', 'o.hex', 'a.asm'))
            J.append(j)
    J += series('C21', tier)
    return J
