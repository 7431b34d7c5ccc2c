"""Whole programs of all features together, and what they must come to: a reference model of the assembler on the level of
its language (a program is a tree of statements, never parsed from text), with symbolic values.  Used by C10 to C21."""
import random
import z3
from tmpl import *
from lst import R, check_row, show, chars
from asm import must_image, Listing

B32 = lambda x: z3.BitVecVal(x & 0xffffffff, 32)
W8 = {'6502': ('lda #%s', 0xA9), '6800': ('ldab #%s', 0xC6), 'z80': ('ld b,%s', 0x06)}
W16 = {'6502': ('jmp %s', 0x4C), '6800': ('jsr %s', 0xBD), 'z80': ('call %s', 0xCD)}
IMP = {'6502': ('nop', 0xEA), '6800': ('nop', 0x01), 'z80': ('nop', 0x00)}
BAD = [' zzz', ' fail', ' fail oh no', ' align 4', ' list x', ' asc abc', '1x db 1', ' ds', ' code 1', ' output x', ' dw', ' zzz 1,2', ' mlist', ' page x,y', ' skip']


def ext(b):
    return z3.ZeroExt(32 - b.size(), b) if b.size() < 32 else b


class E:
    """an operand: its text and its value"""
    def __init__(self, text, ev):
        self.text, self.ev = text, ev

    def plus(self, d):
        return self if not d else E(self.text + '%+d' % d, lambda st: z3.simplify(self.ev(st) + d))


def const(n, text=None):
    return E(text or '%d' % n, lambda st: B32(n))


def hole(h, bv=None, text=None):
    v = ext(h.bv if bv is None else bv)
    return E(text or h.text, lambda st: v)


STAR = E('*', lambda st: st.pc)


def ref(name):
    return E(name, lambda st: st.get(name))


def param(k):
    """\\k of a macro (from 1)"""
    return E('\\%d' % k, lambda st: st.arg(k))


NARG = E('\\#', lambda st: B32(len(st.args)))


class N:
    def __init__(self, kind, text, **kw):
        self.kind, self.text = kind, text
        self.__dict__.update(kw)


def lines(nodes):
    r = []
    for x in nodes:
        if x.kind == 'if':
            r += [x.text] + lines(x.a) + ([x.els] + lines(x.b) if x.els else []) + [x.endc]
        elif x.kind == 'def':
            r += [x.text] + lines(x.body) + [x.end]
        else:
            r.append(x.text)
    return r


class Exitm(Exception):
    pass


class Line:
    def __init__(self):
        self.n = 0


class Machine:
    """runs a tree of statements the way the language says"""
    def __init__(self, path, cpu, list0=True, final=None, memo=None):
        self.path, self.cpu, self.final = path, cpu, final
        self.memo = {} if memo is None else memo
        self.pc, self.on = None, True
        self.sym, self.used, self.fwd, self.kinds = {}, set(), set(), {}
        self.seg = self.nseg = 0
        self.list0 = list0
        self.S = dict(list=list0, mlist=False, ilist=False, clist=True)
        self.rows, self.code, self.errors, self.warnings = [], [], [], []
        self.args, self.depth = [], 0
        self.argtexts = []
        self.calls = 0
        self.heldwarn = False

    # values
    def split(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = c.get_id()
        if k not in self.memo:
            self.memo[k] = c, self.path.split(c)
        return self.memo[k][1]

    def key(self, name):
        return (self.seg, name.upper()) if name[0] == '.' else name.upper()

    def get(self, name):
        k = self.key(name)
        self.used.add(k)
        if k in self.sym:
            return self.sym[k]
        if self.final is None:
            self.fwd.add(k)
            return B32(0)
        return self.final[k]

    def define(self, name, v, kind='Abs'):
        k = self.key(name)
        self.sym[k] = v
        self.kinds[k] = kind

    def arg(self, k):
        e, frame = self.args[k - 1]
        old = self.args
        self.args = frame
        v = e.ev(self)
        self.args = old
        return v

    def put(self, bs, held):
        r = []
        for b in bs:
            if self.on:
                r.append((self.pc, b))
                self.code.append((self.pc, b))
            self.pc = z3.simplify(self.pc + 1)
        if held is not None:
            held.extend(r)
            if len(r) > 20:
                held.append(None)       # some of them may be left out
        return r

    # listing
    def emit(self, text, bs, eq, n, pfx, shown, opt=False, loose=False, error=False, warning=False):
        if self.S['list'] and shown or error:
            r = R(text, bs, eq=eq, num=None if pfx else n, pfx=pfx, error=error, warning=None if error else bool(warning) and 's' not in self.opts)
            r.opt, r.loose = opt, loose or error
            self.rows.append(r)

    def text(self, t):
        if not self.depth:
            return t
        t = t.split(';')[0]
        out, i = '', 0
        while i < len(t):
            if t[i] == '\\' and i + 1 < len(t) and t[i + 1] in '123456789#*':
                c = t[i + 1]
                if c == '#':
                    out += '%d' % len(self.argtexts)
                elif c == '*':
                    out += ','.join(self.argtexts)
                elif int(c) <= len(self.argtexts):
                    out += self.argtexts[int(c) - 1]
                i += 2
            else:
                out += t[i]; i += 1
        return out

    def run(self, nodes, opts=''):
        self.opts = opts
        self.walk(nodes, Line(), None, True, True, None)
        return self

    def walk(self, nodes, ln, pfx, active, shown, held):
        S = self.S
        for x in nodes:
            if not self.depth or ln is not self.mline:
                ln.n += 1
            n, k = ln.n, x.kind
            t = self.text(x.text)
            if not active:
                if k == 'if':
                    self.emit(t, [], None, n, pfx, shown, True)
                    self.walk(x.a, ln, pfx, False, shown, held)
                    if x.els:
                        self.emit(x.els, [], None, self.step(ln), pfx, shown, True)
                        self.walk(x.b, ln, pfx, False, shown, held)
                    self.emit(x.endc, [], None, self.step(ln), pfx, shown, True)
                elif k != 'exitm':
                    self.emit(t, [], None, n, pfx, shown)
                continue
            eq, bs, warn, loose = None, [], False, False
            if k == 'error':
                self.errors.append(n)
                if held:
                    held[:] = [None]
                elif held is not None:
                    held.append(None)
                self.emit(t, [], None, n, pfx, shown, error=True)
                continue
            if getattr(x, 'label', None):
                self.define(x.label, self.pc)
                if not self.on and (not self.depth or S['mlist']):
                    eq = self.pc
            if k == 'if':
                c = x.cond(self)
                opt = not S['clist']
                self.emit(t, [], None, n, pfx, shown, opt)
                try:
                    self.walk(x.a, ln, pfx if c else 'C', c, shown and (c or S['clist']), held)
                except Exitm:
                    self.emit(' exitm', [], None, n, pfx, shown, True)
                    raise
                opt = not S['clist']
                if x.els:
                    self.emit(x.els, [], None, self.step(ln), pfx, shown, opt)
                    try:
                        self.walk(x.b, ln, pfx if not c else 'C', not c, shown and (not c or S['clist']), held)
                    except Exitm:
                        self.emit(' exitm', [], None, n, pfx, shown, True)
                        raise
                    opt = not S['clist']
                self.emit(x.endc, [], None, self.step(ln), pfx, shown, opt)
            elif k in ('list', 'mlist', 'ilist', 'clist'):
                S[k] = x.to and not (k == 'list' and not self.list0)
                self.emit(t, [], None, n, pfx, shown)
            elif k == 'section':
                self.nseg += 1
                self.seg, self.on = self.nseg, x.to
                self.emit(t, [], None, n, pfx, shown)
            elif k == 'def':
                self.define(x.name, None, 'Macro')
                self.emit(t, [], None, n, pfx, shown)
                for y in lines(x.body) + [x.end]:
                    self.emit(y, [], None, self.step(ln), pfx, shown)
            elif k == 'call':
                self.call(x, t, n, pfx, shown, held, eq)
            elif k == 'include':
                old = S['list']
                self.emit(t, [], None, n, pfx, shown)
                if not S['ilist'] and shown:
                    S['list'] = False
                self.walk(x.body, Line(), pfx, True, shown, held)
                S['list'] = old
            elif k == 'exitm':
                raise Exitm()
            else:
                if k == 'code':
                    bs = x.bytes(self)
                    bs = self.put(bs, held)
                elif k == 'equ':
                    v = x.value.ev(self)
                    self.define(x.name, v)
                    eq = v
                elif k == 'org':
                    eq = self.pc = z3.simplify(x.value.ev(self))
                if self.depth and not S['mlist']:
                    eq = None
                w = getattr(x, 'warn', None)
                if w is not None:
                    warn = w(self) if callable(w) else w
                    if warn:
                        self.warnings.append(n)
                        self.heldwarn = self.heldwarn or S['list']
                self.emit(t, bs, eq if not bs else None, n, pfx, shown, warning=warn)

    def step(self, ln):
        if not self.depth or ln is not self.mline:
            ln.n += 1
        return ln.n

    def call(self, x, t, n, pfx, shown, held, eq):
        S = self.S
        self.calls += 1
        if self.calls > 400:
            raise RuntimeError('model: too many calls')
        self.used.add(x.macro.name.upper())
        save = self.args, self.argtexts, self.depth, self.seg, S['list']
        args = [(e, self.args) for e in x.args]
        texts = [self.text(e.text) for e in x.args]
        h, ml = [], S['mlist']
        if ml:
            self.emit(t, [], eq, n, pfx, shown)
        self.args, self.argtexts, self.depth = args, texts, self.depth + 1
        self.nseg += 1
        self.seg = self.nseg
        ln = Line()
        ln.n = n
        om = getattr(self, 'mline', None)
        self.mline = ln
        hw, self.heldwarn = self.heldwarn, False
        try:
            self.walk(x.macro.body, ln, 'M', True, ml and shown, held if ml else h)
        except Exitm:
            pass
        self.args, self.argtexts, self.depth, self.seg, S['list'] = save
        self.mline = om
        hw, self.heldwarn = self.heldwarn, hw or self.heldwarn
        if not ml:
            if held is not None:
                held.extend(h)
            self.emit(t, [b for b in h if b], eq, n, pfx, shown, warning=hw, loose=None in h or eq is not None)


class Gen:
    """makes a program.  w: weights of the kinds of statements; opt: what else may appear"""
    W = dict(db=8, dw=6, dl=1, asc=2, ds=3, align=1, ins=5, jump=4, label=3, equ=3, redef=1, org=1, gap=1, far=0, iff=3, call=4, include=2, section=0, list=0, mlist=0, ilist=0, clist=0, skip=0, comment=1, error=0, warn=0, local=1)

    def __init__(self, j, cpu, seed, n=30, depth=2, long=0, pad=False, symorg=True, minc=False, **w):
        self.j, self.cpu, self.r = j, cpu, random.Random(seed * 7919 + n)
        self.w = dict(self.W, **w)
        self.long, self.pad, self.minc = long, pad, minc
        self.files, self.macros = {}, []
        self.v = [j.bits(8), j.bits(8)]
        self.c = [j.bits(1) for _ in range(2)]
        self.g = j.bits(4)
        self.o = j.bits(8)
        self.k = 0
        self.pending, self.names, self.equs, self.vars = [], [], [], []
        self.orgs = 0
        self.nodes = [N('plain', ' cpu ' + cpu)]
        for q in range(2):
            self.k += 1
            self.vars.append(self.name('r'))
        for _ in range(self.r.randrange(3)):
            self.macro()
            self.nodes.append(self.macros[-1])
        for q in range(2):
            self.nodes.append(self.equ(self.vars[q], hole(self.v[q])))
        if symorg:
            self.nodes.append(N('org', ' * = %s*16+$1000' % self.o, value=E('', lambda st: z3.simplify(ext(self.o.bv) * 16 + 0x1000))))
        else:
            self.nodes.append(N('org', ' * = $1000', value=const(0x1000)))
        self.nodes += self.block(n, depth, top=True)
        for nm in self.pending:
            self.nodes.append(self.code(nm, 'db 1', lambda st: [1]))
        self.nodes.append(N('section', ' code', to=True) if self.w['section'] else N('plain', ''))
        self.nodes.append(self.code(None, 'db $5A', lambda st: [0x5A]))

    def name(self, p='n'):
        r = self.r
        t = '%s%d' % (p, self.k)
        if r.randrange(5) == 0:
            t += r.choice(('_', '.', 'Ab', 'x'))
        if self.long and r.randrange(self.long) == 0:
            t += ''.join(r.choice('abcXYZ_.0123456789') for _ in range(r.choice((10, 30, 47 - len(t), 48 - len(t)))))
            t = t[:48]
        return t

    def case(self, t):
        return t.upper() if self.r.randrange(4) == 0 else t

    def line(self, lab, t, comment=True):
        r = self.r
        s = (lab or '') + (r.choice(('\t', '   ', ' ')) if self.pad else ' ') + t
        if comment and r.randrange(6) == 0:
            s += r.choice((' ; c', ' ;', '\t; x;y', ' ; "q'))
        return s

    def code(self, lab, t, f, **kw):
        return N('code', self.line(lab, t), label=lab, bytes=f, **kw)

    def equ(self, nm, e):
        return N('equ', nm + self.r.choice((' equ ', ' = ', '=', ' EQU ')) + e.text, name=nm, value=e)

    def byte(self, P):
        """an operand of 8 bits"""
        r = self.r
        k = r.randrange(8)
        if k < 2:
            n = r.randrange(256)
            return const(n, r.choice(('%d', '$%x', '$%02X')) % n)
        if k == 2 and P:
            return param(r.randrange(1, P + 1))
        if k == 3 and P:
            return NARG
        if k == 4 and self.equs and not P:
            return ref(self.case(r.choice(self.equs)))
        if k == 5:
            return ref(self.case(r.choice(self.vars)))
        return hole(r.choice(self.v))

    def word(self, P, locs, scope, top):
        r = self.r
        k = r.randrange(9)
        d = r.choice((0, 0, 0, 1, 2, -1, 7))
        if k == 0:
            return STAR.plus(d)
        if k == 1 and locs:
            return ref(r.choice(locs)).plus(d)
        if k < 6 and (scope or self.names):
            return ref(self.case(r.choice((scope + self.names)[-8:]))).plus(d)
        if k == 6:
            if self.pending and r.randrange(2):
                return ref(self.case(r.choice(self.pending))).plus(d)
            if len(self.pending) < 6:
                self.k += 1
                nm = self.name('f')
                self.pending.append(nm)
                return ref(nm).plus(d)
        if k == 7:
            n = r.randrange(65536)
            return const(n, '$%x' % n)
        return self.byte(P)

    def macro(self):
        r = self.r
        self.k += 1
        nm = 'm%d%s' % (self.k, r.choice(('', 'ac', '_')))
        P = r.randrange(0, 4)
        m = N('def', nm + r.choice((' macro', '\tMACRO', ' macro ; m')), name=nm, body=[], end=r.choice((' endm', '\tENDM')), P=P)
        loc = []
        if r.randrange(2):
            loc = ['.l', '.Loop'][:r.randrange(1, 3)]
        body = self.block(r.randrange(1, 6), 1, P=P, mac=True, locs=loc)
        for l in loc:
            first = next((i for i, x in enumerate(body) if x.kind == 'if' and ' exitm' in lines([x])), len(body))
            body.insert(r.randrange(first + 1), N('plain', l, label=l) if r.randrange(2) else self.code(l, 'db 3', lambda st: [3]))
        if self.w['list'] and r.randrange(3) == 0:
            to = r.randrange(2)
            body.append(N('list', ' list ' + ('off', 'on')[to], to=bool(to)))
        m.body = body
        self.macros.append(m)

    def block(self, n, depth, P=0, mac=False, top=False, locs=(), nolab=False, exitm=False):
        """n statements"""
        out, scope = [], []
        r = self.r
        kinds = [k for k, c in self.w.items() for _ in range(c)]
        lab, size = None, 0
        while len(out) < n or lab and len(out) == size:
            if lab and len(out) == size:     # its statement was dropped
                out.append(N('plain', lab, label=lab))
                lab = None
                continue
            self.k += 1
            k = r.choice(kinds)
            lab, size = None, len(out)
            canlab = not mac and not nolab
            if k in ('db', 'dw', 'dl', 'asc', 'ds', 'align', 'ins', 'jump', 'label', 'call') and canlab and (k == 'label' or r.randrange(3) == 0):
                if top and self.pending and r.randrange(2):
                    lab = self.pending.pop(r.randrange(len(self.pending)))
                else:
                    lab = self.name()
                (self.names if top else scope).append(lab)
            big = [self.cpu]
            if k == 'db':
                es = [self.byte(P) for _ in range(r.choice((1, 1, 2, 3, 8)))]
                out.append(self.code(lab, self.case('db') + ' ' + r.choice((',', ', ') if not mac else (',',)).join(e.text for e in es), lambda st, es=es: [z3.Extract(7, 0, e.ev(st)) for e in es]))
            elif k == 'dw':
                es = [self.word(P, locs, scope, top) for _ in range(r.choice((1, 1, 2, 3)))]
                out.append(self.code(lab, 'dw ' + ','.join(e.text for e in es), lambda st, es=es: self.words(st, es)))
            elif k == 'dl':
                e = self.word(P, locs, scope, top)
                if e.text[0] == '$' or e.text[0] == '%' or e.text == '*':
                    out.append(self.code(lab, 'dl ' + e.text, lambda st, e=e: order(self.cpu, self.at(st, e), 4)))
            elif k == 'asc':
                s = ''.join(r.choice('abc XYZ;,()09') for _ in range(r.randrange(1, 9)))
                if mac:
                    s = s.replace(';', '')
                if s.strip():
                    out.append(self.code(lab, 'asc "%s"' % s, lambda st, s=s: list(s.encode())))
            elif k == 'ds':
                c = r.choice((0, 1, 2, 3, 5, 17, 24))
                if r.randrange(2):
                    e = self.byte(P)
                    out.append(self.code(lab, 'ds %d,%s' % (c, e.text), lambda st, c=c, e=e: [z3.Extract(7, 0, e.ev(st))] * c))
                else:
                    out.append(self.code(lab, 'ds %d' % c, lambda st, c=c: [0] * c))
            elif k == 'align':
                odd = r.randrange(2)
                out.append(self.code(lab, 'align ' + ('even', 'ODD')[odd], lambda st, odd=odd: [0] if st.split(z3.Extract(0, 0, st.pc) == (0 if odd else 1)) else []))
            elif k == 'ins':
                if r.randrange(3) == 0:
                    t, b = IMP[self.cpu]
                    out.append(self.code(lab, self.case(t), lambda st, b=b: [b]))
                else:
                    t, b = W8[self.cpu]
                    e = self.byte(P)
                    out.append(self.code(lab, t % e.text, lambda st, b=b, e=e: [b, z3.Extract(7, 0, e.ev(st))]))
            elif k == 'jump':
                t, b = W16[self.cpu]
                e = self.word(P, locs, scope, top)
                if e.text[0] in '\\$%' or e.text[0].isdigit() or e.text.lower().rstrip('0123456789+-') in ('', '%'):
                    continue        # short forms
                if any(e.text.upper() == q.upper() for q in self.vars + self.equs):
                    continue
                out.append(self.code(lab, t % e.text, lambda st, b=b, e=e: [b] + self.words(st, [e])))
            elif k == 'label':
                if lab:
                    out.append(N('plain', lab + r.choice(('', ' ; here', ' ')), label=lab))
            elif k == 'equ' and canlab and top:
                nm = self.name('e')
                if r.randrange(3) or not self.names:
                    out.append(self.equ(nm, self.byte(0)))
                    self.equs.append(nm)
                else:
                    out.append(self.equ(nm, ref(r.choice(self.names)).plus(r.choice((0, 1, 3)))))
                    self.names.append(nm)
            elif k == 'redef' and not nolab:
                nm = r.choice(self.vars)
                out.append(self.equ(self.case(nm), r.choice((hole(r.choice(self.v)), const(r.randrange(256))) + ((param(r.randrange(1, P + 1)), NARG) if P else ()))))
            elif k == 'org' and top:
                self.orgs += 1
                x = r.randrange(3)
                if x == 0 and self.names:
                    e = ref(r.choice([q for q in self.names if q not in self.equs] or [self.names[0]])).plus(r.choice((0, 1, 40)))
                else:
                    e = const(0x2000 + 0x400 * self.orgs, '$%x' % (0x2000 + 0x400 * self.orgs))
                out.append(N('org', r.choice((' * = ', '* = ', '*=', ' * equ ')) + e.text, value=e))
            elif k == 'gap':
                e = E('*+' + self.g.text, lambda st: z3.simplify(st.pc + 2 * (ext(self.g.bv) >> 1))) if 0 else STAR.plus(r.choice((1, 2, 16)))
                out.append(N('org', ' * = ' + e.text, value=e))
            elif k == 'hop':
                # a byte far ahead, and back to where the address was; in macros too
                e, h = self.byte(P), r.choice((0x8000, 0x8000, 0x7f00))
                out.append(N('org', ' * = *+$%x' % h, value=E('', lambda st, h=h: st.pc + h)))
                out.append(self.code(None, 'db ' + e.text, lambda st, e=e: [z3.Extract(7, 0, e.ev(st))]))
                out.append(N('org', ' * = *-$%x' % (h + 1), value=E('', lambda st, h=h: st.pc - (h + 1))))
                out.append(self.code(None, 'db %d' % (self.k & 255), lambda st, k=self.k & 255: [k]))
            elif k == 'far' and top:
                self.orgs += 1
                back = 0x2000 + 0x400 * self.orgs
                up = r.choice((0x10000, 0x20000, 0x123 << 16, 0x80 << 24))
                out.append(N('org', ' * = *+$%x' % up, value=E('', lambda st, up=up: st.pc + up)))
                for _ in range(r.randrange(1, 3)):
                    e = hole(r.choice(self.v))
                    out.append(self.code(None, 'db %s,1' % e.text, lambda st, e=e: [z3.Extract(7, 0, e.ev(st)), 1]))
                out.append(N('org', ' * = $%x' % back, value=const(back)))
            elif k == 'iff' and depth:
                x = r.randrange(4 if P else 3)
                if x == 0:
                    q = r.randrange(2)
                    t, f = '%d' % q, lambda st, q=q: bool(q)
                elif x < 3:
                    h = r.choice(self.c)
                    neg = r.randrange(2)
                    t, f = (h.text + '=0' if neg else h.text), lambda st, h=h, neg=neg: st.split(h.bv == (0 if neg else 1))
                else:
                    p = r.randrange(1, P + 1)
                    q = r.randrange(4)
                    t, f = '\\%d%s%d' % (p, ('=', '<>')[q & 1], q), lambda st, p=p, q=q: st.split((st.arg(p) == q) if not q & 1 else (st.arg(p) != q))
                a = self.block(r.randrange(0, 4), depth - 1, P, mac, False, locs, nolab, mac)
                b = self.block(r.randrange(0, 3), depth - 1, P, mac, False, locs, nolab, mac)
                els = r.choice((' else', ' ELSE', '\telse')) if b or r.randrange(3) == 0 else None
                out.append(N('if', ' if ' + t, cond=f, a=a, els=els, b=b if els else [], endc=r.choice((' endc', ' ENDC'))))
                if r.randrange(3) == 0 and mac:
                    (a if r.randrange(2) or not els else b).append(N('exitm', ' exitm'))
            elif k == 'call':
                if not mac and (not self.macros or top and len(self.macros) < 5 and r.randrange(4) == 0):
                    if not top:
                        continue
                    self.macro()
                    out.append(self.macros[-1])
                if self.macros:
                    m = r.choice(self.macros)
                    args = [self.byte(0) if not (P and r.randrange(3) == 0) else param(r.randrange(1, P + 1)) for _ in range(m.P + (r.randrange(5) == 0))]
                    if mac:
                        args = [a if a.text[0] == '\\' or a.text[0].isdigit() or a.text[0] in '$%' else const(7) for a in args]
                    t = self.case(m.name) + (' ' + r.choice((',', ' , ') if not mac else (',',)).join(a.text for a in args) if args else '')
                    out.append(N('call', self.line(lab, t), label=lab, macro=m, args=args))
            elif k == 'include' and depth and (not mac or self.minc):
                old = [q for q in self.files if self.files[q][1] and not mac]
                if old and r.randrange(3) == 0:
                    nm = r.choice(old)
                    body = self.files[nm][0]
                else:
                    nm = 'f%d' % self.k
                    rep = mac or r.randrange(2)
                    body = self.block(r.randrange(0, 5), depth - 1, P if mac else 0, mac, False, (), nolab or rep)
                    for q in body if mac else ():
                        pass
                    if mac:
                        body = [q for q in body if '\\' not in ''.join(lines([q]))]
                    self.files[nm] = body, rep
                out.append(N('include', ' %s %s' % (self.case('include'), nm), body=body))
            elif k == 'section' and not mac:
                to = r.randrange(2)
                out.append(N('section', (' dummy', ' code')[to], to=bool(to)))
            elif k in ('list', 'mlist', 'ilist', 'clist') and not (mac and k in ('list', 'mlist')):
                to = r.randrange(3) > 0
                out.append(N(k, ' %s %s' % (self.case(k), r.choice(('on', 'ON') if to else ('off', 'OFF'))), to=to))
            elif k == 'skip' and not mac:
                out.append(N('plain', r.choice((' skip 3', ' skip 0', ' page'))))
            elif k == 'comment' and not mac:
                out.append(N('plain', r.choice(('; text', ';', '  ; x "', '', '\t;;'))))
            elif k == 'error':
                out.append(N('error', r.choice(BAD)))
            elif k == 'warn':
                x = r.randrange(3)
                if x == 0:
                    n_ = r.randrange(256, 65536)
                    out.append(self.code(lab, 'db $%x' % n_, lambda st, n_=n_: [n_ & 255], warn=True))
                elif x == 1:
                    n_ = r.randrange(65536, 1 << 24)
                    out.append(self.code(lab, 'dw $%x' % n_, lambda st, n_=n_: order(self.cpu, B32(n_), 2), warn=True))
                else:
                    h = r.choice(self.v)
                    t = r.choice(('db %s+$80', 'ds 1,%s*2'))
                    f = lambda st, h=h, t=t: z3.simplify(ext(h.bv) + 0x80 if '+' in t else ext(h.bv) * 2)
                    out.append(self.code(lab, t % h, lambda st, f=f: [z3.Extract(7, 0, f(st))], warn=lambda st, f=f: st.split(z3.UGT(f(st), 255))))
            elif k == 'local' and top:
                # a local label of the section, with references around
                l = '.q%d' % self.k
                seq = [self.code(l, 'db 4', lambda st: [4])]
                for _ in range(r.randrange(1, 3)):
                    seq.insert(r.randrange(len(seq) + 1), self.code(None, 'dw ' + l, lambda st, l=l: self.words(st, [ref(l)])))
                if not (self.w['section']):
                    out += seq
                else:
                    out += seq
        return out

    @staticmethod
    def at(st, e):
        return e.ev(st)

    def words(self, st, es):
        r = []
        for e in es:
            r += order(self.cpu, e.ev(st), 2)
        return [z3.simplify(x) for x in r]

    def sources(self, eol='\n'):
        f = {'a.asm': ''.join(t + eol for t in lines(self.nodes))}
        for nm, (body, rep) in self.files.items():
            f[nm] = ''.join(t + eol for t in lines(body))
        return f


def model(path, g, opts):
    """both passes -> Machine of the second"""
    memo = {}
    one = Machine(path, g.cpu, 'l' not in opts, None, memo).run(g.nodes, opts)
    two = Machine(path, g.cpu, 'l' not in opts, one.sym, memo)
    two.run(g.nodes, opts)
    two.fwd = one.fwd
    return two


def shape(t):
    return ''.join(c if ord(c) < 0xE000 else '\ue000' for c in t)


def alike(a, b):
    return len(a) == len(b) and all(x == y or '\ue000' <= x or '\ue000' <= y for x, y in zip(a, b))


def check_rows(path, job, rows, ls):
    got = [r for r in ls.rows if r.text.items or r.code]
    i = 0
    for e in rows:
        if not e.text.strip():
            continue
        what = 'listed line (%s)' % show(e.text)
        want = ''.join(chr(c) if isinstance(c, int) else '\ue000' for c in chars(job, e.text))
        if e.opt and (i >= len(got) or (got[i].num, got[i].prefix) != (e.num, e.pfx) or not alike(got[i].src().rstrip(), want)):
            continue
        if i >= len(got):
            path.fail('%s is missing from the listing' % what); return
        r = got[i]
        i += 1
        if e.loose:
            if (r.num, r.prefix) != (e.num, e.pfx) or not getattr(r, 'wrap', None) and r.src().rstrip() != want:
                path.fail('%s: instead of it there is %r' % (what, r)); return
            if e.error and not r.errors:
                path.fail('%s: no error above it' % what)
            continue
        if not check_row(path, job, r, e, what):
            return
    if i < len(got):
        path.fail('a line is listed which should not be: %r' % got[i])


def count(path, ls, pat):
    o, m = ls.tailline(pat)
    return int(m.group(1)) if m else path.fail('no line %s in the summary' % pat)


def judge(path, job, g, aspects, opts='', codefile='o.hex', run=0):
    """aspects: subset of code rows errors warnings table summary"""
    r = path.runs[run]
    m = model(path, g, opts)
    ls = Listing(r.listing)
    if r.code != 0:
        path.fail('exit status %s' % r.code); return m, ls
    if 'errors' in aspects:
        got = [n for n, k, t in ls.diags if k == 'ERROR']
        if got != m.errors:
            path.fail('errors at the lines %s, expected %s' % (got[:12], m.errors[:12]))
        if count(path, ls, r'^ERRORS: +(\d+) *$') != len(m.errors):
            path.fail('errors miscounted: there are %d' % len(m.errors))
        ok, no = ls.tailline(r'^Successful assembly')[0], ls.tailline(r'^No code generated')[0]
        if (ok is None) != bool(m.errors) or (no is None) == bool(m.errors):
            path.fail('success is reported wrongly')
    elif bool(ls.errors) != bool(m.errors):
        path.fail('error %s' % (ls.errors[0],) if ls.errors else 'no error reported'); return m, ls
    if 'warnings' in aspects:
        want = [] if 's' in opts else m.warnings
        got = [n for n, k, t in ls.diags if k == 'WARNING']
        if 'l' not in opts and 'rows' in aspects and not m.S['list'] is None and len(got) > len(want):
            path.fail('%d warnings printed, there are %d' % (len(got), len(want)))
        if count(path, ls, r'^WARNINGS: +(\d+) *$') != len(want):
            path.fail('warnings miscounted: there are %d' % len(want))
    if m.errors:
        if r.has(codefile):
            path.fail('code file in spite of errors')
    elif 'code' in aspects:
        if m.code and not r.has(codefile):
            path.fail('no code file'); return m, ls
        if m.code:
            must_image(path, r.file(codefile), m.code)
    if 'rows' in aspects:
        check_rows(path, job, m.rows, ls)
    if 'summary' in aspects and not m.errors:
        o, x = ls.tailline(r'^ Code length +(\S+) \((\S+)\)$')
        if o is None or x.group(2) != '%d' % len(m.code) or int(x.group(1), 16) != len(m.code):
            path.fail('wrong code length in the summary')
        o, x = ls.tailline(r'^ Last address +(\S+) \((\S+)\)$')
        if o is None:
            path.fail('no last address in the summary')
        else:
            v, ok = o.hexnum(x.start(1), x.end(1))
            path.must(ok, 'last address is no hex number')
            path.must(z3.simplify(ext(v) == m.pc - 1), 'wrong last address in the summary')
            d = x.group(2)
            if d.isdigit():
                path.must(z3.simplify(m.pc - 1 == B32(int(d))), 'wrong decimal last address in the summary')
    if 'table' in aspects:
        tab = ls.symbols()
        if not ('x' in opts or 'l' not in opts and not m.errors):
            if tab:
                path.fail('symbol table in spite of -l or errors')
        else:
            want = {k for k in m.sym if isinstance(k, str) and k != '*'}
            if set(tab) != want:
                d = sorted(set(tab) ^ want)[0]
                path.fail('symbol table: %s is %s' % (d, 'missing' if d in want else 'too much')); return m, ls
            for k in want:
                mark, val, ty = tab[k]
                if ty != m.kinds[k]:
                    path.fail('symbol table: %s is said to be %s' % (k, ty))
                e = '?' if k not in m.used else '^' if k in m.fwd else ' '
                if mark != e:
                    path.fail('symbol table: %s is marked %r, expected %r' % (k, mark, e))
                if ty == 'Abs':
                    if val is None:
                        path.fail('symbol table: no value for %s' % k); continue
                    o, a, b = val
                    v, ok = o.hexnum(a, b)
                    path.must(ok, 'symbol table: value is no hex number')
                    w = m.sym[k]
                    path.must(z3.simplify(v == (z3.Extract(v.size() - 1, 0, w) if v.size() < 32 else w)), 'symbol table: wrong value of %s' % k)
    return m, ls


def program(name, cpu, seed, aspects, n=30, args=(), maxpaths=400, maxtime=100, **kw):
    j = job(name, maxpaths=maxpaths, maxtime=maxtime)
    g = Gen(j, cpu, seed, n, **kw)
    opts = ''.join(a[1:] for a in args if a[0] == '-')
    def orc(job, path, g=g):
        judge(path, job, g, aspects, opts)
    j.oracle = orc
    j.add(g.sources(), args=['crasm', '-o', 'o.hex'] + list(args) + ['a.asm'])
    return j


def programs(aspects, count, tier='quick', first=0, options=((),), **kw):
    """a series of programs for all processors"""
    k = count if tier == 'quick' else count * 8
    out = []
    for s in range(k):
        cpu = ('6502', '6800', 'z80')[s % 3]
        args = options[s % len(options)]
        out.append(program('%s world %d %s' % (cpu, s, ' '.join(args)), cpu, first + s, aspects, n=(12, 25, 40)[s // 3 % 3] if tier == 'quick' else 20 + s // 4, args=args, **kw))
    return out


# the series of programs of each check: what they judge and which statements prevail
ALL = ('code', 'errors', 'warnings', 'rows', 'table', 'summary')
SETS = {
    'C10': [(('code', 'errors'), 45, dict(first=10000, long=3, pad=True, label=8, equ=8, redef=4, dw=14, jump=8, section=1, n=4))],
    'C11': [(('code', 'errors'), 36, dict(first=11000, long=4, local=8, label=5, call=8, section=2, dw=8, include=3))],
    'C12': [(('code', 'errors', 'warnings'), 45, dict(first=12000, iff=10, call=5, include=3, error=1, warn=1, section=1))],
    'C13': [(('code', 'errors', 'warnings'), 45, dict(first=13000, call=16, iff=4, redef=3, hop=1, error=1, include=2, minc=True))],
    'C14': [(('code', 'errors', 'warnings'), 45, dict(first=14000, include=14, minc=True, call=6, error=3, depth=4, iff=4))],
    'C15': [(('code', 'errors', 'warnings'), 45, dict(first=15000, error=8, warn=6, iff=6, call=5, include=3, options=((), ('-l',), ('-s',), ('-x',))))],
    'C17': [(ALL[3:4] + ALL[5:], 45, dict(first=17000, redef=3, call=6, hop=2, far=2, org=2, section=2, pad=True)), (ALL[3:4], 15, dict(first=17500, error=3, warn=3, iff=4))],
    'C18': [(ALL, 45, dict(first=18000, list=3, mlist=3, ilist=3, clist=3, skip=2, hop=1, warn=1, iff=4, include=4, call=6, minc=True, options=((), ('-x',), (), ('-s',), ('-l',), ('-x', '-l'))))],
    'C19': [],
    'C20': [(('code', 'summary'), 36, dict(first=20000, org=4, gap=4, hop=3, far=4, section=5, align=3, call=5)), ],
    'C21': [(('table',), 36, dict(first=21000, long=4, equ=8, label=6, call=4, iff=4, section=2, error=0)), (('table',), 12, dict(first=21500, error=2, equ=6, label=6, options=(('-x',), ('-l', '-x'), ())))],
}


def series(prop, tier):
    out = []
    for aspects, count, kw in SETS[prop]:
        kw = dict(kw)
        kw.pop('n', 0)
        out += programs(aspects, count, tier, **kw)
    return out


def bounds(prop):
    return '; %d programs (thorough: 8 times as many, larger) of about 12 to 40 statements of all kinds drawn for this property (labels, EQU, data, instructions, origins, gaps, sections, conditionals, macros, calls, EXITM, included files, listing directives, wrong lines), against the reference model lib/world.py, for all values of an 8-bit origin, two 8-bit operands and two conditions' % sum(n for a, n, kw in SETS[prop])
