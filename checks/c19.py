"""C19: how a program is written (blanks, case, comments, empty lines) does not matter."""
import random, z3
import isa6502, isa6800, isaz80
from tmpl import *
from asm import Listing

BOUNDS = ('every mnemonic of each CPU and every directive and form of operand in programs of some 60 lines; each letter outside strings of either case (symbolic, two variables per letter), up to 3 blanks or tabs (symbolic) wherever '
          'parts of a line may be separated, comments with arbitrary characters behind any line, comment and empty lines between any two, labels on lines of their own, EQU or =, with and without final newline, DOS line ends; '
          'each compared with the plain form of the same program, with symbolic operands')
OUTSIDE = 'blanks inside numbers, names and two-character operators; blanks before a label; line ends other than LF and CR LF'
TEXT = bytes(c for c in range(32, 256) if c != 127)

# ~ marks places where blanks may stand; operands of each kind
F6502 = ['lda #~%s', 'lda %s', 'lda %s~,~x', 'lda lab~,~y', 'lda (~%s~,~x~)', 'lda (~%s~)~,~y', 'jmp (~lab~)', 'jmp lab~+~2', 'sta lab~-~1~,~x', 'asl a', 'asl', 'bne there', 'ldx #~lab~&~255', "cmp #~'a'", 'inc %s', 'ora #~LO(~lab~)', 'ldx %s~,~y', 'bit lab', 'jsr LAB', 'lda @~%s~,~x', 'lda @~%s~,~y', 'sta @~(~%s~)~,~y']
F65C02 = ['lda (~%s~)', 'stz %s', 'jmp (~lab~,~x~)', 'bra there', 'inc a', 'bit #~%s', 'trb %s', 'phx']
F6800 = ['ldaa #~%s', 'ldaa %s', 'ldaa %s~,~x', 'ldaa ,~x', 'staa lab', 'ldx #~lab~+~1', 'clr %s~,~x', 'jmp lab', 'jsr 0~,~x', 'bne there', 'bsr there', 'tst lab', 'cpx %s']
FZ80 = ['ld a~,~b', 'ld a~,~%s', 'ld (~ix~+~5~)~,~a', 'ld c~,~(~iy~-~3~)', 'ld (~ix~+~5~)~,~%s', 'ld (~lab~)~,~hl', 'ld hl~,~(~lab~)', 'ld a~,~(~bc~)', 'ld (~hl~)~,~%s', 'ld sp~,~hl', 'ld ix~,~lab~+~1', 'ld a~,~i', "ex af~,~af'", 'ex (~sp~)~,~hl', 'ex de~,~hl', 'jp (~hl~)', 'jp nz~,~lab', 'jp lab', 'jr nc~,~there', 'jr there', 'djnz there', 'call c~,~lab', 'call lab', 'ret nz', 'ret',
        'add a~,~%s', 'add hl~,~bc', 'adc hl~,~de', 'sbc a~,~(~hl~)', 'sub %s', 'cp (~iy~+~2~)', 'and b', 'xor (~ix~)', 'inc (~hl~)', 'dec ix', 'push af', 'pop iy', 'bit 3~,~(~hl~)', 'set 7~,~(~ix~-~5~)', 'res 0~,~a', 'rlc (~iy~+~1~)', 'sla b', 'in a~,~(~%s~)', 'in b~,~(~c~)', 'out (~c~)~,~d', 'out (~%s~)~,~a', 'im 1', 'rst 8']
DIR = ['db %s', 'db 1~,~%s~,~3', 'db (~%s~+~2~)~*~3~&~255', 'db LO(~lab~)~,~HI(~lab~)'.replace('HI(~lab~)', '-~1~&~255'), 'dw lab~,~there', 'dw ~~lab~&~$7fff'.replace('~~lab', '-~lab'), 'dl %s~*~256', 'ddb lab', 'ds 3', 'ds 2~,~%s', 'asc "a;b \'Q\' z"', "asc 'X,y'", 'align even', 'align  odd', 'dw ADDR(~lab{3}~)', "db 'a'~,~\"B\"", 'dw (~lab~)~-~(~there~)~+~1000', 'db 1~<~2'.replace('1~<~2', '1~<<~2'), 'db 255~>>~2', 'db 1~|~6~^~3', 'fail_not'.replace('fail_not', 'skip 2'), 'list  on', 'clist on', 'mlist off', 'nam A title', 'page 66~,~76', 'm %s~,~2', 'm (~1~,~2~)~,~"x"'.replace('(~1~,~2~)', '(~1~)').replace('"x"', '"x"')]


class Style:
    """writes lines with symbolic case and blanks"""
    def __init__(self, j, rnd, case=True, blanks=True, comments=True, lines=True):
        self.j, self.rnd, self.case, self.blanks, self.comments, self.lines = j, rnd, case, blanks, comments, lines
        self.V, self.n = {}, 0
        self.b = [j.byte(b' \t') for _ in range(2)] if blanks else []
        self.c = [j.byte(TEXT) for _ in range(2)] if comments else []

    def letters(self, s):
        out, q = '', ''
        for i, ch in enumerate(s):
            if q:
                if ch == q:
                    q = ''
                out += ch
            elif ch in '"\'' and not (ch == "'" and s[max(0, i - 2):i].lower() == 'af'):
                q = ch
                out += ch
            elif ch.isalpha() and self.case and ord(ch) < 128:
                self.n += 1
                k = (ch.lower(), self.n % 2)
                if k not in self.V:
                    self.V[k] = self.j.byte((k[0] + k[0].upper()).encode())
                out += self.V[k].text
            else:
                out += ch
        return out

    def gap(self, least):
        if not self.blanks:
            return ' ' * least
        n = least + self.rnd.choice((0, 0, 1, 2))
        return ''.join(self.rnd.choice((' ', '\t', self.b[0].text, self.b[1].text)) for _ in range(n))

    def operand(self, o):
        q, r = '', ''
        return ''.join(self.gap(0) if k % 2 else self.letters(p) for i, p0 in enumerate(o.split('~')) for k, p in ((0, p0), (1, ''))) if '~' in o else self.letters(o)

    def line(self, lab, mn, op):
        r = self.rnd
        out = []
        keep = mn in ('nam', 'fail', 'asc', 'include')
        if mn == 'equ':
            k = r.randrange(3)
            s = self.letters(lab) + (self.gap(1) + self.letters('equ') + self.gap(1) if k == 0 else self.gap(0) + '=' + self.gap(0)) + self.operand(op)
        else:
            if lab and self.lines and mn not in ('macro',) and r.randrange(3) == 0:
                out.append(self.letters(lab) + self.tail(True))
                lab = ''
            s = (self.letters(lab) if lab else '') + (self.gap(1) + self.letters(mn) if mn else '')
            if op:
                s += self.gap(1) + (op if mn in ('nam', 'include') else self.letters(op) if keep else self.operand(op))
        out.append(s + self.tail(mn not in ('nam', 'fail', 'include')))
        if self.lines and r.randrange(4) == 0:
            out.append(r.choice(('', ' ', self.gap(1), ';', '; note', self.gap(0) + ';' + ''.join(c.text for c in self.c), '\t; "' + ''.join(c.text for c in self.c))))
        return out

    def tail(self, com):
        k = self.rnd.randrange(5)
        if k == 0:
            return self.gap(1) if self.blanks else ''
        if k == 1 and self.comments and com:
            return self.gap(0) + ';' + self.rnd.choice(('', ' x', ' "', " it's (", ' ;', ',')) + ''.join(c.text for c in self.c)
        return ''


def plain(lab, mn, op):
    op = op.replace('~', '') if op else op
    return '%s %s%s' % (lab or '', mn, ' ' + op if op else '')


def same(job, path, bad=()):
    a, b = path.runs
    la, lb = Listing(a.listing), Listing(b.listing)
    if la.errors:
        path.fail('plain program refused: %s' % (la.errors[0],)); return
    if lb.errors:
        path.fail('refused when written differently: %s' % (lb.errors[0],)); return
    if not a.has('o.hex') or not b.has('o.hex'):
        path.fail('no code file'); return
    x, y = a.file('o.hex'), b.file('o.hex')
    if len(x.items) != len(y.items):
        path.fail('another code file when written differently'); return
    for k in range(len(x.items)):
        path.must(z3.simplify(x.bv(k) == y.bv(k)), 'another code file when written differently')


def build(name, cpu, src, seed, nl=None, **style):
    """src: [(label, mnemonic, operand)]"""
    rnd = random.Random(seed)
    j = job(name, maxpaths=400, maxtime=250)
    v = j.bits(7)
    st = Style(j, rnd, **style)
    head = [('', 'cpu', cpu), ('m', 'macro', ''), ('', 'db', '\\1,~\\2'), ('', 'endm', ''), ('*', 'equ', '$1000'), ('lab', 'db', '1')]
    tailp = [('there', 'ds', '1')]
    full = [(l, m, (o % v.text if '%s' in o else o)) for l, m, o in head + src + tailp]
    pl = ''.join(plain(*x) + '\n' for x in full)
    eol = '\r\n' if nl == 'dos' else '\n'
    ls = [t for x in full for t in st.line(*x)]
    stx = eol.join(ls) + ('' if nl == 'none' else eol)
    j.oracle = same
    j.add(pl)
    j.add(stx)
    return j


def jobs(tier):
    big = tier == 'thorough'
    J = []
    def split(t, lab=''):
        p = t.split(' ', 1)
        return (lab, p[0], p[1].strip() if len(p) > 1 else '')
    inv = {}
    for cpu in ('6502', '65C02'):
        inv[cpu] = [split(t) for t in F6502 + (F65C02 if cpu == '65C02' else [])] + [('', m, '') for m, modes in sorted(isa6502.table(cpu).items()) if 'imp' in modes]
    for cpu in ('6800', '6801'):
        inv[cpu] = [split(t) for t in F6800]
        for m, modes in sorted(isa6800.table(cpu).items()):
            inv[cpu].append(('', m, '' if 'imp' in modes else 'there' if 'rel' in modes else '%s~,~x'))
    inv['z80'] = [split(t) for t in FZ80] + [('', m, '') for m in sorted(isaz80.SIMPLE)]
    for cpu, lines in inv.items():
        for base in range(0, len(lines), 24):
            part = lines[base:base + 24]
            for k, kw in enumerate((dict(), dict(case=False), dict(blanks=False, comments=False))) if not big else [(k, dict()) for k in range(6)]:
                rnd = random.Random(base + k)
                src = [('L%d_q' % i if rnd.randrange(3) == 0 else '.z%d' % i if rnd.randrange(4) == 0 else '', m, o) for i, (l, m, o) in enumerate(part)]
                J.append(build('%s lines %d style %d' % (cpu, base, k), cpu, src, base + k, **kw))
    for cpu in ('6502', '6800', 'z80'):
        for k in range(8 if not big else 30):
            rnd = random.Random(k)
            src = [split(t, 'd%d' % i if rnd.randrange(3) == 0 and t.split()[0] not in ('skip', 'list', 'clist', 'mlist', 'nam', 'page') else '') for i, t in enumerate(DIR) if t != 'fail_not']
            rnd.shuffle(src)
            src = src[:20] if k % 2 else src[20:]
            src += [('k1', 'equ', '%s~+~1'), ('', 'if', 'k1~>=~0'), ('', 'db', '1'), ('', 'else', ''), ('', 'db', '2'), ('', 'endc', ''), ('k2', 'equ', 'K1~*~2'), ('', 'dw', 'k2'), ('', 'if', '1~<<~1~>~3'), ('', 'db', '5'), ('', 'endc', ''), ('Mac2', 'macro', ''), ('.x', 'dw', '.X~,~\\2'), ('', 'if', '\\#~=~2'), ('', 'exitm', ''), ('', 'endc', ''), ('', 'endm', ''), ('', 'mAC2', '%s~,~5'), ('d9x', 'mac2', '1~,~ 2'), ('', 'include', 'f'), ('', 'dummy', ''), ('du', 'db', '1'), ('', 'code', ''), ('*', 'equ', '*~+~5'), ('', 'dw', 'du')]
            if k % 3 == 2:
                src = src[-26:]
            j = build('%s directives %d' % (cpu, k), cpu, src, k, nl=('', 'none', 'dos')[k % 3], **(dict(), dict(comments=False), dict(case=False), dict(blanks=False))[k % 4])
            for r in j.runs:
                r.files['f'] = ' db 77\n'
            J.append(j)
        for k, t in enumerate(('dw $aBcD', 'dw 0AbcH~,~17q', 'dw 0xfE~,~101b~,~0b11')):
            J.append(build('%s numbers %d' % (cpu, k), cpu, [split(t)], 0, blanks=False, comments=False))
    # comments of any length, whatever they hold
    for n in (60, 120, 180, 230, 236, 238, 240, 242, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 400, 500, 510, 511, 512, 513, 514, 700, 760, 770, 1024, 2050) + (tuple(range(219, 300)) if big else ()):
        j = job('comment up to column %d' % n, maxpaths=400)
        v, c = j.bits(8), [j.byte(TEXT) for _ in range(2)]
        def fill(t):
            return t + ' ' * max(0, n - len(t) - 16) + ' db 9 ; db 8' + c[0].text + ' ' + c[1].text
        pl = [' cpu 6800', ' * = $1000', 'm macro', ' db \\1', ' endm', 'lab db %s' % v, ' include f', ' if lab', ' m 5', ' else', ' db 3', ' endc', 'lab2', ' asc "x"', ' dw lab2']
        lg = []
        for t in pl:
            lg += [t if 'include' in t else fill(t + ' ;')] + ([fill(';')] if t != pl[-1] else [])
        j.oracle = same
        j.add({'a.asm': ''.join(t + '\n' for t in pl), 'f': ' db 4\n'})
        j.add({'a.asm': '\n'.join(lg) + ('\n' if n & 1 else ''), 'f': fill(' db 4 ;') + '\n'})
        J.append(j)
    # wrong lines stay wrong
    for cpu, bad in (('6502', ['lda', 'lda #~', 'sta #~5', 'foo 5', 'jmp', 'db', 'asl 5~,~y', 'endc', 'ds -~1', 'asc x', 'align 3', 'nop 5', 'equ 5', 'cpu z80', 'page 1', 'db 1~+', 'db (~1', 'dw nolabel']),
                     ('6800', ['ldaa', 'staa #~5', 'clr', 'nop 5', 'bne 5000', 'ldaa 5~,~y', 'jmp #~5', 'aba a', 'psh', 'db 1,~']),
                     ('z80', ['ld a', 'ld (~hl~)~,~(~hl~)', 'ld a~,~bc', 'push a', 'jp (~5', 'jr po~,~lab', 'add b~,~c', 'ex hl~,~de~,', 'bit 8~,~a', 'im 3', 'rst 9', 'in d~,~(~5~)', 'ret x', 'inc 5', 'nop a'])):
        for k in range(2):
            J.append(wrong(cpu, [split(t) for t in bad], k))
    return J


def wrong(cpu, bad, seed):
    rnd = random.Random(seed)
    j = job('%s wrong lines %d' % (cpu, seed), maxpaths=200, maxtime=60)
    v = j.bits(7)
    st = Style(j, rnd, lines=False)
    src = [('', 'cpu', cpu), ('*', 'equ', '$1000'), ('lab', 'db', '%s' % v)] + bad
    full = []
    j.add(''.join(plain(*x) + '\n' for x in src))
    j.add(''.join(t + '\n' for x in src for t in st.line(*x)))
    def orc(job, path):
        la, lb = (Listing(r.listing) for r in path.runs)
        ea, eb = [[d[0] for d in l.errors] for l in (la, lb)]
        if ea != list(range(4, 4 + len(bad))):
            path.fail('wrong lines accepted: %s' % [plain(*bad[i - 4]) for i in range(4, 4 + len(bad)) if i not in ea]); return
        if eb != ea:
            path.fail('accepted when written differently: %s' % [plain(*bad[i - 4]) for i in ea if i not in eb])
        if any(r.has('o.hex') for r in path.runs):
            path.fail('code file in spite of errors')
    j.oracle = orc
    return j
