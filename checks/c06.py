"""C06: expressions."""
import itertools, random
import z3
from tmpl import *

BOUNDS = ('every expression of 2 and 3 binary operators (9 operators, quick: a third of the 3-operator ones), flat and with every placement of one pair of parentheses, unary - and ~ before '
          'an operand or a parenthesis; chains of 8 operands; nesting 12 deep; operands 16-bit symbolic (shift counts 0..15, divisors 8..15 symbolic), written as constants, labels and '
          'forward labels, with and without blanks; BIT, ADDR, LO, HI and {}; operator characters inside ascii constants; every operator applied to registers, macros and mnemonics')
OUTSIDE = ('division and >> of values which are negative or above 2^31-1, division by zero, shift counts above 31 '
           '(32-bit evaluation does not say what they give)')

PREC = {'<<': 4, '>>': 4, '|': 3, '&': 3, '^': 3, '*': 2, '/': 2, '+': 1, '-': 1}
OPS = list(PREC)
M32 = (1 << 31) - 1


class NoClaim(Exception):
    pass


class V:
    """64-bit value with an interval"""
    def __init__(self, bv, lo, hi):
        if lo < -(1 << 62) or hi > 1 << 62:
            raise NoClaim
        self.bv, self.lo, self.hi = bv, lo, hi


def W(x):
    return 1 << x.bit_length()


def apply(op, a, b):
    if op == '+': return V(a.bv + b.bv, a.lo + b.lo, a.hi + b.hi)
    if op == '-': return V(a.bv - b.bv, a.lo - b.hi, a.hi - b.lo)
    if op == '*':
        c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return V(a.bv * b.bv, min(c), max(c))
    if op == '/':
        if b.lo <= 0 or a.lo < 0 or a.hi > M32 or b.hi > M32: raise NoClaim
        return V(a.bv / b.bv, a.lo // b.hi, a.hi // b.lo)
    if op == '<<':
        if b.lo < 0 or b.hi > 31: raise NoClaim
        return V(a.bv << b.bv, min(a.lo, a.lo << b.hi), max(a.hi, a.hi << b.hi))
    if op == '>>':
        if b.lo < 0 or b.hi > 31 or a.lo < 0 or a.hi > M32: raise NoClaim
        return V(a.bv >> b.bv, 0, a.hi)
    if a.lo < 0 or b.lo < 0:
        m = max(W(abs(t)) for t in (a.lo, a.hi, b.lo, b.hi))
        lo, hi = -m, m
        if op == '&' and (a.lo >= 0 or b.lo >= 0):
            lo, hi = 0, max(x.hi for x in (a, b) if x.lo >= 0)
    else:
        lo, hi = 0, W(max(a.hi, b.hi)) - 1 if op != '&' else min(a.hi, b.hi)
        if op == '|': lo = max(a.lo, b.lo)
    return V({'|': a.bv | b.bv, '&': a.bv & b.bv, '^': a.bv ^ b.bv}[op], lo, hi)


def neg(v):
    return V(-v.bv, -v.hi, -v.lo)


def inv(v):
    return V(-v.bv - 1, ~v.hi, ~v.lo)


def evaluate(toks, env):
    """precedence climbing over tokens; left associative; unary - and ~ bind tightest"""
    p = [0]
    def prim():
        t = toks[p[0]]; p[0] += 1
        if t == '(':
            v = expr(1)
            assert toks[p[0]] == ')'; p[0] += 1
            return v
        if t == 'u-': return neg(prim())
        if t == 'u~': return inv(prim())
        if t in ('LO(', 'HI('):
            v = expr(1); p[0] += 1
            return V((v.bv if t == 'LO(' else z3.LShR(v.bv, 8)) & 255, 0, 255)
        return env[t]
    def expr(m):
        a = prim()
        while p[0] < len(toks) and toks[p[0]] in PREC and PREC[toks[p[0]]] >= m:
            o = toks[p[0]]; p[0] += 1
            a = apply(o, a, expr(PREC[o] + 1))
        return a
    v = expr(1)
    assert p[0] == len(toks)
    return v


def text(toks, env_text, sp=''):
    return ''.join((sp + t + sp) if t in PREC else t[1:] if t in ('u-', 'u~') else t if t in '()' or t.endswith('(') else env_text[t] for t in toks)


def be(v):
    return [z3.Extract(8 * k + 7, 8 * k, v) for k in (3, 2, 1, 0)]


class Env:
    """operands: v0..v3 16 bits, s0..s2 0..15, d0..d2 8..15"""
    def __init__(self, j, style, bits=16):
        self.text, self.val, self.pre, self.post = {}, {}, [], []
        for k in range(4):
            self.add(j, 'v%d' % k, style, bits, '%', 0)
        for k in range(3):
            self.add(j, 's%d' % k, style, 4, '%', 0)
            self.add(j, 'd%d' % k, style, 3, '%1', 8)

    def add(self, j, n, style, bits, prefix, base):
        N = j.bits(bits, prefix=prefix)
        if style == 'const':
            self.text[n] = N.text
        else:
            self.text[n] = 'w' + n
            (self.pre if style == 'label' else self.post).append('w%s = %s' % (n, N.text))
        self.val[n] = V(z3.ZeroExt(64 - bits, N.bv) + base if base else z3.ZeroExt(64 - bits, N.bv), base, base + (1 << bits) - 1)


def operand_for(op, k):
    return ('s%d' if op in ('<<', '>>') else 'd%d' if op == '/' else 'v%d') % k


def flat(ops):
    t = ['v0']
    for k, o in enumerate(ops):
        t += [o, operand_for(o, k if operand_for(o, 0)[0] != 'v' else k + 1)]
    return t


def line(toks, env, sp='', warn=False):
    try:
        v = evaluate(toks, env.val)
    except NoClaim:
        return None
    return L(' dl ' + text(toks, env.text, sp), be(z3.Extract(31, 0, v.bv)), warn=warn)


def paren(t, a, b):
    return t[:a] + ['('] + t[a:b] + [')'] + t[b:]


def jobs(tier):
    J = []
    rnd = random.Random(5)

    def put(name, style, toklists, sp='', bits=16, per=100):
        env = Env(job('x'), style, bits)
        good = [t for t in toklists if line(t, env)]
        for k, ch in enumerate(chunks(good, per)):
            j = job('%s %s%s #%d' % (name, style, ' spaced' if sp else '', k))
            env = Env(j, style, bits)
            J.append(finish(j, '6800', [line(t, env, sp) for t in ch], env.pre, env.post))

    two = [flat(o) for o in itertools.product(OPS, OPS)]
    one = [flat((o,)) for o in OPS]
    put('one', 'const', one)
    put('one', 'forward', one)
    for st, sp in (('label', ''), ('const', ' '), ('forward', '')):
        put('two', st, two, sp)
    par = []
    for o in itertools.product(OPS, OPS):
        t = flat(o)
        par += [paren(t, 0, 3), paren(t, 2, 5)]
        par += [paren(paren(t, 2, 5), 2, 7), paren(paren(t, 0, 3), 0, 5)]
        u = ['v0', o[0], '(', 'd0', o[1], operand_for(o[1], 1), ')']
        par += [u, ['s0', o[0], '(', 's1', o[1], operand_for(o[1], 2), ')']]
    put('parentheses', 'label', par)
    put('parentheses', 'const', par[::7], ' ')
    three = [flat(o) for o in itertools.product(OPS, OPS, OPS)]
    if tier == 'quick':
        three = [t for k, t in enumerate(three) if k % 3 == 1]
    put('three', 'label', three, bits=10)
    p3 = []
    for o in itertools.product(OPS, OPS, OPS):
        t = flat(o)
        p3 += [paren(t, 0, 3), paren(t, 2, 5), paren(t, 4, 7), paren(t, 0, 5), paren(t, 2, 7), ['('] + t[:3] + [')', t[3], '('] + t[4:] + [')']]
    if tier == 'quick':
        p3 = rnd.sample(p3, 400)
    put('three with parentheses', 'label', p3, bits=8)
    un = []
    for o in OPS:
        t = flat((o,))
        for x in ('u-', 'u~'):
            un += [[x] + t, [x, '('] + t + [')'], t[:2] + ['(', x] + t[2:] + [')'], ['(', x, 'v0', ')'] + t[1:], [x, x] + t]
            for y in ('u-', 'u~'):
                un += [[x, y] + t, [x, '(', y] + t + [')']]
            un += [['HI(', x, 'v0', ')', o, t[2]], ['LO('] + t + [')', '+', 'v2'], ['HI('] + t + [')', '+', 'v2'], ['v2', '*', 'LO('] + t + [')'], ['LO('] + t + [')'], ['HI('] + t + [')']]
        for x in ('u-', 'u~'):
            un += [t[:2] + [x] + t[2:], [x] + t[:2] + [x] + t[2:], t[:2] + [x, 'u-'] + t[2:], t + ['+', x] + t[2:], ['v2', '-', x] + t, ['v2', '*', x] + t, ['(', 'v2', '-', x] + t + [')', '+', x, 'v0']]
    un += [['v0', '+', 'u-', 'v1'], ['v0', '+', 'u~', 'v1'], ['v0', '*', 'v2', '+', 'u-', 'v1']]
    put('unary', 'label', un, bits=10)
    put('unary', 'const', un[::3], ' ')
    # long chains
    ch = []
    for o in OPS:
        ch.append(['v0'] + [x for k in range(7) for x in (o, operand_for(o, k % 3))])
    for k in range(30):
        ops = [rnd.choice(OPS) for _ in range(rnd.randrange(4, 8))]
        t = ['v0']
        for i, o in enumerate(ops):
            t += [o, operand_for(o, i % 3)]
        ch.append(t)
    put('chains', 'label', ch)
    # nesting
    ne = []
    for o1, o2 in itertools.product('+-*|&^', '+-*|&^'):
        t = ['v0']
        for k in range(12):
            o = (o1, o2)[k % 2]
            t = [['('] + t + [')', o, 'v%d' % (k % 4)], ['v%d' % (k % 4), o, '('] + t + [')']][k % 3 > 0]
        ne.append(t)
    put('nesting', 'label', ne, bits=4)
    # values: carry, truncation to 32 bits
    j = job('overflow')
    a, b = j.bits(32), j.bits(32)
    x, y = a.bv, b.bv
    J.append(finish(j, '6800', [L(' dl va+vb', be(x + y)), L(' dl va-vb', be(x - y)), L(' dl va*2', be(x * 2)), L(' dl va&vb', be(x & y)), L(' dl va|vb', be(x | y)), L(' dl va^vb', be(x ^ y)),
                                L(' dl ~va', be(~x)), L(' dl -va', be(-x)), L(' dl va<<5', be(x << 5)), L(' dl va<<31', be(x << 31)), L(' dl va<<0', be(x)), L(' dl (va^vb)&va|vb', be((x ^ y) & x | y)),
                                L(' dl va*3+vb*5', be(x * 3 + y * 5)), L(' dl LO(va)', be(x & 255)), L(' dl HI(va)', be((z3.LShR(x, 8)) & 255)), L(' dl LO(-va)', be(-x & 255)), L(' dl HI(-va)', be(z3.LShR(-x, 8) & 255))],
                    pre=['va = ' + a.text, 'vb = ' + b.text]))
    j = job('shift counts')
    a, s = j.bits(8), j.bits(5)
    x, n = z3.ZeroExt(24, a.bv), z3.ZeroExt(27, s.bv)
    J.append(finish(j, '6800', [L(' dl va<<vs', be(x << n)), L(' dl (va<<16)>>vs', be(z3.LShR(x << 16, n))), L(' dl %s<<%s' % (a.text, s.text), be(x << n)), L(' dl $7fffffff>>vs', be(z3.LShR(z3.BitVecVal(0x7fffffff, 32), n)))],
                    pre=['va = ' + a.text, 'vs = ' + s.text]))
    # bit references
    j = job('bit references')
    a, n = j.bits(16), j.bits(5)
    A, N = z3.ZeroExt(16, a.bv), z3.ZeroExt(27, n.bv)
    J.append(finish(j, '6800', [L(' dl BIT(pia{vn})', be(N)), L(' dl ADDR(pia{vn})', be(A)), L(' dl BIT(r)', be(N)), L(' dl ADDR(r)', be(A)), L(' dl bit(%s{%s})' % (a.text, n.text), be(N)),
                                L(' dl addr( %s { %s } )+1' % (a.text, n.text), be(A + 1)), L(' dl ADDR(r)+BIT(r)*2', be(A + N * 2)), L(' dl ADDR(r)-BIT(sb)', be(A - (31 - N))), L(' dl 1<<BIT(r)', be(z3.BitVecVal(1, 32) << N)),
                                L(' dl ADDR((pia+2){vn})', be(A + 2))],
                    pre=['pia = ' + a.text, 'vn = ' + n.text, 'r = pia{vn}', 'sb = (pia-1){(31-vn)}']))
    j = job('bit reference types')
    a, n = j.bits(8), j.bits(3)
    bad = ['r', 'r+1', '1+r', 'r*2', '-r', '~r', 'r{1}', '1{r}', 'BIT(va)', 'ADDR(va)', 'BIT(BIT(r))', 'ADDR(ADDR(r))', 'LO(r)', 'HI(r)', 'r-r', 'r&1', 'r|r', 'r^1', 'r<<1', 'r>>1', 'r/1', 'va{33}', 'va{vn+40}']
    J.append(finish(j, '6800', [L(' dl ' + t, 'error') for t in bad], pre=['va = ' + a.text, 'vn = ' + n.text, 'r = va{vn}']))
    # things which are no numbers
    for cpu, regs in (('6502', ('a', 'x', 'y')), ('z80', ('a', 'hl', 'ix'))):
        j = job('types ' + cpu)
        a = j.bits(8)
        t = []
        for r in regs + ('nop', 'mac', 'db', 'nosuch'):
            for o in OPS:
                t += ['%s%s%s' % (r, o, 'va'), 'va%s%s' % (o, r)]
            t += ['-' + r, '~' + r, r, 'va,' + r, r + '+' + r, 'va{%s}' % r, '%s{va}' % r, 'LO(%s)' % r, 'va+(1+%s)' % r]
        J.append(finish(j, cpu, [L(' db ' + x, 'error') for x in t], pre=['va = ' + a.text, 'mac macro', ' nop', ' endm'], post=['never = 1']))
    # malformed
    j = job('malformed')
    a = j.bits(8)
    bad = ['va+', '*va+', 'va va', 'va+(va', 'va)+va', '(va', 'va)', '()', 'va+()', '/va', 'va/', 'va<<', '>>va', '|va', 'va&', 'va^', 'va+/va', 'va,', ',va', 'va,,va', '#va', 'va!va', 'va?', 'va@', 'va[1]', '{1}', 'va{}', '~', '-', 'LO()', 'HI va', "'", "'a", '"a']
    J.append(finish(j, '6800', [L(' db ' + t, 'error') for t in bad] + [L(' db', 'error')], pre=['va = ' + a.text]))
    # characters which look like operators or brackets
    j = job('quoted operators')
    a = j.bits(8)
    x = z3.ZeroExt(24, a.bv)
    lines = []
    for c in '+-*/|&^<>~(){}\\,;$%=#.:!?@ ':
        q = "'%s'" % (c if c != '\\' else '\\\\')
        k = ord(c)
        lines += [L(' dl %s+va' % q, be(x + k)), L(' dl va-%s' % q, be(x - k)), L(' dl (va+%s)*2' % q, be((x + k) * 2)), L(' dl %s*va+"%s"' % (q, q[1:-1]), be(x * k + k)), L(' dl 2*(va|%s) ; %s' % (q, c), be(2 * (x | k)))]
    for q, k in (("'\\''", 39), ('"\'"', 39), ("'\"'", 34), ('"\\""', 34), ("'\\\\'", 92), ('"\\\\"', 92), ("'\\n'", 10), ("'\\0'", 0)):
        lines += [L(' dl %s+va' % q, be(x + k)), L(' dl va-%s' % q, be(x - k)), L(' dl va+%s-%s' % (q, q), be(x)), L(' dl (%s+va)*3-%s' % (q, q), be((x + k) * 3 - k)), L(" dl va*'a'+%s*'b'" % q, be(x * 97 + k * 98)), L(' dl %s*(va+%s)' % (q, q), be(k * (x + k)))]
    lines = [l for l in lines if "'\\\\'*2" not in l.text]
    J.append(finish(j, '6800', lines, pre=['va = ' + a.text]))
    # the warning about external parentheses, and only then
    j = job('parenthesis warning')
    a, b = j.bits(8), j.bits(8)
    x, y = z3.ZeroExt(24, a.bv), z3.ZeroExt(24, b.bv)
    J.append(finish(j, '6800', [L(' dl (va+vb)', be(x + y), warn=True), L(' dl (va)', be(x), warn=True), L(' dl ((va))', be(x), warn=True), L(' dl (va)+(vb)', be(x + y)), L(' dl (va+1)*(vb)', be((x + 1) * y)),
                                L(' dl (va)', be(x), warn=True), L(' dl 1*(va+vb)', be(x + y)), L(' dl (va+vb)+0', be(x + y)), L(' dl -(va)', be(-x)), L(' dl va,(vb)', be(x) + be(y), warn=True), L(' dl (va*(vb+1))', be(x * (y + 1)), warn=True),
                                L(" dl (va)+')'-')'", be(x)), L(" dl (va+')')", be(x + 41), warn=True), L(' dl ((va)+(vb))', be(x + y), warn=True), L(' dl (va)-(vb)-(va)', be(-y))],
                    pre=['va = ' + a.text, 'vb = ' + b.text]))
    # the same value wherever the expression stands
    j = job('contexts')
    a, b = j.bits(8), j.bits(7)
    x, y = z3.ZeroExt(24, a.bv), z3.ZeroExt(25, b.bv)
    e = '((va^$5a)*3+vb<<1)+1'
    v = ((x ^ 0x5a) * 3 + (y << 1)) + 1
    l16 = z3.Extract(15, 0, v)
    J.append(finish(j, '6502', [L(' dl ' + e, be(v)[::-1]), L('e1 = ' + e), L('e2 equ ' + e), L(' dl e1', be(v)[::-1]), L(' dl e2', be(v)[::-1]), L(' jmp ' + e, [0x4C, lo(l16), hi(l16)]), L(' dw ' + e, [lo(l16), hi(l16)]),
                                L(' ddb ' + e, [hi(l16), lo(l16)]), L(' lda #LO(%s)' % e, [0xA9, lo(l16)]), L(' lda #HI(%s)' % e, [0xA9, hi(l16)]), L(' jmp (%s)' % e, [0x6C, lo(l16), hi(l16)]), L(' ds 2,LO(%s)' % e, [lo(l16)] * 2),
                                ' if e1 = ' + e, L(' db 1', [1]), ' else', ' db 2', ' endc'],
                    pre=['va = ' + a.text, 'vb = ' + b.text]))
    return J
