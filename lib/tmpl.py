"""Helpers for program templates shared by the encoding checks."""
import z3
from sx import Job
from asm import L, source, check_lines, Listing


def lo(v):
    return z3.Extract(7, 0, v)


def hi(v):
    return z3.Extract(15, 8, v)


def z8(v, w=16):
    return z3.ZeroExt(w - 8, v)


def job(name, **kw):
    return Job(name, None, **kw)


def finish(j, cpu, lines, pre=(), post=(), org=0x1000, **ck):
    """complete job j: the program is  cpu/pre/org/lines/post ; the oracle checks every L line of it"""
    lines = [' cpu %s' % cpu] + list(pre) + [' * = $%x' % org] + list(lines) + list(post)
    def oracle(job, path, lines=lines):
        check_lines(path, lines, org, **ck)
    j.oracle = oracle
    j.add(source(lines))
    return j


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


STYLES = ('bin', 'hex', 'label', 'expr', 'forward')


def operand(j, style, n):
    """a symbolic n-bit operand written in some style: (text, value, lines before, lines after)"""
    V = j.hexnum((n + 3) // 4) if style == 'hex' else j.bits(n)
    if style in ('bin', 'hex'):
        return V.text, V.bv, [], []
    d = ['val = ' + V.text]
    if style == 'label':
        return 'val', V.bv, d, []
    if style == 'expr':
        return 'val+1-1', V.bv, d, []
    return 'val', V.bv, [], d


def anymnemonic(cpu, n, known, first, ref=None):
    """every n-letter bare mnemonic with first letter in `first`: exactly those of the processor give their opcode bytes;
    known: {mnemonic: bytes}"""
    j = job('%s any %d-letter mnemonic %s-%s' % (cpu, n, first[0], first[-1]), maxpaths=3000, maxtime=120)
    cs = [j.byte(first.encode())] + [j.byte(range(97, 123)) for _ in range(n - 1)]
    w = z3.Concat(*[c.bv for c in cs]) if n > 1 else cs[0].bv
    code = lambda m: z3.BitVecVal(int.from_bytes(m.encode(), 'big'), 8 * n)
    known = {m: b for m, b in known.items() if len(m) == n and m[0] in first}

    def orc(job, path):
        ls = Listing(path.runs[0].listing)
        row = ls.row(3)
        isk = z3.Or(*[w == code(m) for m in known]) if known else z3.BoolVal(False)
        if row is None:
            path.must(z3.Not(isk), 'line missing'); return
        if row.errors:
            path.must(z3.Not(isk), 'a mnemonic of the processor is refused')
            return
        bs, ok = row.bytes()
        if bs:
            same = [(m, b) for m, b in known.items() if len(b) == len(bs)]
            path.must(z3.Or(*[z3.And(w == code(m), *[x == y for x, y in zip(bs, b)]) for m, b in same]) if same else False,
                      'code of a bare mnemonic is wrong, or an unknown mnemonic is accepted')
        else:
            path.must(z3.Not(isk), 'a mnemonic of the processor gives no code')
    j.oracle = orc
    j.add(' cpu %s\n * = $1000\n %s\n' % (cpu, ''.join(c.text for c in cs)))
    j.expect_paths = 5
    return j


def split(path, cond):
    """True or False: the oracle is run for either case when the path does not decide cond"""
    return path.split(cond)


def warned(cond):
    """a `warn` for L: there is a warning exactly when cond holds"""
    def f(path):
        return split(path, cond)
    f.exact = True
    return f


def order(cpu, v, n):
    """the n bytes of v in the byte order of the processor"""
    b = [z3.Extract(8 * k + 7, 8 * k, v) for k in range(n)]
    return b if cpu in ('6500', '6502', '65C02', 'z80', 'Z80') else b[::-1]


def tx(l):
    return ''.join(x.text for x in l)


def forward_exprs(v, s=None):
    """expressions holding `val`, a label of 16 bits defined later (and `sv` of 3 bits): [(text, value of 16 bits)]"""
    one = z3.BitVecVal(1, 16)
    r = [(t, v) for t in ('val+0', '0+val', 'val-0', 'val*1', '1*val', 'val/1', 'val|0', '0|val', 'val&$ffff', '$ffff&val', 'val^0', '0^val', 'val<<0', 'val>>0', '--val', '~~val', '(val+1)-1', 'val+val-val', 'ADDR(val{3})', 'e1', 'e1+0', '5+e2-5')]
    r += [('LO(val)', v & 255), ('HI(val)', z3.LShR(v, 8)), ('val-val', v & 0), ('0*val', v & 0)]
    if s is not None:
        s16 = z3.ZeroExt(16 - s.size(), s)
        r += [('1<<sv', one << s16), ('$80>>sv', z3.LShR(z3.BitVecVal(0x80, 16), s16)), ('(val&$ff)+(sv*0)', v & 255)]
    return r
