"""Reading the program's outputs: the listing, Intel HEX and S-record files, with symbolic bytes in them."""
import re
import z3

SYM = '\ue000'
HX = '0-9A-F' + SYM
R_DIAG = re.compile(r'^(>*) ?(\d+) (ERROR|WARNING): (.*)$')
R_SRC = re.compile(r'^(.{21})( *\d+|[ ]*[CM][ ]*)  ?(.*)$', re.S)
R_CONT = re.compile(r'^([%s]{4}|[%s]{8}) ((?:[%s]{2})+)(\.\.\.)? *$' % (HX, HX, HX))
R_HEAD = re.compile(r'^Crasm .*page *\d+$')


class Row:
    """one source line of the listing"""
    def __init__(self):
        self.num = None          # printed line number or None
        self.prefix = None       # C / M
        self.text = None         # Out of the source text
        self.addr = None         # (line Out, a, b) of the first address in code position
        self.eq = None           # (line Out, a, b): address printed at column 2 (label or EQU value)
        self.code = []           # [(line Out, a, b)] hex byte runs
        self.cont = []           # [(line Out, (a,b) address, (a,b) bytes)]
        self.dots = False
        self.errors, self.warnings = [], []

    def bytes(self):
        """-> list of 8-bit values, validity"""
        r, ok = [], True
        for o, a, b in self.code:
            v, c = o.hexbytes(a, b)
            r += v
            ok = both(ok, c)
        return r, ok

    def address(self):
        if self.addr is None:
            return None, True
        o, a, b = self.addr
        return o.hexnum(a, b)

    def value(self):
        if self.eq is None:
            return None, True
        o, a, b = self.eq
        return o.hexnum(a, b)

    def src(self):
        return self.text.shape if self.text is not None else ''

    def __repr__(self):
        return 'Row(%s%s %r err=%r warn=%r)' % (self.num, self.prefix or '', self.src(), self.errors, self.warnings)


def both(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def conj(cs):
    r = True
    for c in cs:
        r = both(r, c)
    return r


class Listing:
    def __init__(self, out):
        self.out = out
        self.rows, self.tail, self.heads, self.fatal, self.other = [], [], [], [], []
        self.diags = []
        pend, code, dots = [], [], False
        intail = False
        for o in out.lines():
            s = o.shape
            if R_HEAD.match(s):
                self.heads.append(s)
                continue
            if s.startswith('FATAL ERROR') or s.startswith('FILE ERROR'):
                self.fatal.append(s)
                continue
            if re.match(r'^ERRORS: ', s):
                intail = True
            if intail:
                self.tail.append(o)
                continue
            if not s:
                continue
            m = R_DIAG.match(s)
            if m:
                pend.append((int(m.group(2)), m.group(3), m.group(4)))
                self.diags.append(pend[-1])
                continue
            m = R_CONT.match(s)
            if m:
                code.append((o, m))
                dots = dots or bool(m.group(3))
                continue
            m = R_SRC.match(s)
            if not m or not self.codepart(m.group(1)):
                if self.rows:
                    self.rows[-1].wrap = getattr(self.rows[-1], 'wrap', []) + [o]
                else:
                    self.other.append(o)
                continue
            r = Row()
            t = m.group(2)
            if t.strip().isdigit():
                r.num = int(t)
            else:
                r.prefix = t.strip()
            r.text = o.sub(28, len(s)) if len(s) > 28 else o.sub(len(s), len(s))
            for n, k, msg in pend:
                (r.errors if k == 'ERROR' else r.warnings).append((n, msg))
            pend = []
            for co, cm in code:
                if r.addr is None:
                    r.addr = (co, cm.start(1), cm.end(1))
                r.code.append((co, cm.start(2), cm.end(2)))
                r.cont.append((co, (cm.start(1), cm.end(1)), (cm.start(2), cm.end(2))))
            code = []
            c = m.group(1)
            cm = re.match(r'^([%s]{4}|[%s]{8}) ((?:[%s]{2})+)(\.\.\.)? *$' % (HX, HX, HX), c)
            if cm:
                if r.addr is None:
                    r.addr = (o, cm.start(1), cm.end(1))
                r.code.append((o, cm.start(2), cm.end(2)))
                r.cont.append((o, (cm.start(1), cm.end(1)), (cm.start(2), cm.end(2))))
                dots = dots or bool(cm.group(3))
            else:
                cm = re.match(r'^  ([%s]{8}|[%s]{4}) *$' % (HX, HX), c)
                if cm:
                    r.eq = (o, cm.start(1), cm.end(1))
            r.dots = dots
            dots = False
            self.rows.append(r)
        self.pending = pend
        self.bynum = {}
        for r in self.rows:
            if r.num is not None:
                self.bynum.setdefault(r.num, r)

    @staticmethod
    def codepart(c):
        return bool(re.match(r'^((  )?([%s]{8}|[%s]{4}) ((?:[%s]{2})*)(\.\.\.)?)? *$' % (HX, HX, HX), c))

    def row(self, n):
        return self.bynum.get(n)

    @property
    def errors(self):
        return [d for d in self.diags if d[1] == 'ERROR']

    @property
    def warnings(self):
        return [d for d in self.diags if d[1] == 'WARNING']

    def tailline(self, pat):
        for o in self.tail:
            m = re.match(pat, o.shape)
            if m:
                return o, m
        return None, None

    def symbols(self):
        """the symbol table: {NAME: (flag char, value Out range or None, type)} (76 columns: one label per 61 columns)"""
        r = {}
        for o in self.tail:
            s = o.shape
            m = re.match(r'^([ ?^])([%s]{8}|[%s]{4}| {4,8}) +(Abs|Rel|Macro|Undefined|Register\(s\)|Bit-?\d+|Mnemonic) (\S+) *$' % (HX, HX), s)
            if m:
                r[m.group(4)] = (m.group(1), (o, m.start(2), m.end(2)) if m.group(2).strip() else None, m.group(3))
        return r


class Bad(Exception):
    pass


def parse_code(out):
    """HEX or S-record file -> (format, [(address bv32, [bytes])], validity conditions [(cond, what)])
    raises Bad when the shape is not that of the format."""
    lines = [o for o in out.lines()]
    sh = out.shape
    if not sh.endswith('\n'):
        raise Bad('code file does not end with a newline')
    if not lines:
        raise Bad('empty code file')
    fmt = 'HEX' if sh[0] == ':' else 'SREC' if sh[0] == 'S' else None
    if fmt is None:
        raise Bad('code file starts with %r' % sh[0])
    recs, conds = [], []
    ended = False
    upper = z3.BitVecVal(0, 16)
    for ln, o in enumerate(lines):
        s = o.shape
        if ended:
            raise Bad('record after the end record')
        if fmt == 'HEX':
            if not s or s[0] != ':' or len(s) < 11 or len(s) % 2 == 0:
                raise Bad('malformed record %r' % s)
            b, ok = o.hexbytes(1, len(s))
            if ok is not True:
                conds.append((ok, 'record %d has a character which is no hex digit' % ln))
            tot = z3.BitVecVal(0, 8)
            for x in b[:-1]:
                tot = tot + x
            conds.append((b[-1] == 0 - tot, 'checksum of record %d' % ln))
            conds.append((b[0] == z3.BitVecVal(len(b) - 5, 8), 'length field of record %d' % ln))
            ty = z3.simplify(b[3])
            if not z3.is_bv_value(ty):
                raise Bad('symbolic record type')
            ty = ty.as_long()
            ad = z3.Concat(b[1], b[2])
            data = b[4:-1]
            if ty == 0:
                recs.append((z3.Concat(upper, ad), data))
            elif ty == 1:
                if data:
                    raise Bad('end record with data')
                ended = True
            elif ty == 4:
                if len(data) != 2:
                    raise Bad('extended address record of length %d' % len(data))
                conds.append((ad == 0, 'address field of the extended address record'))
                upper = z3.Concat(data[0], data[1])
            else:
                raise Bad('record type %d' % ty)
        else:
            if not s or s[0] != 'S' or len(s) < 10 or len(s) % 2:
                raise Bad('malformed record %r' % s)
            b, ok = o.hexbytes(2, len(s))
            if ok is not True:
                conds.append((ok, 'record %d has a character which is no hex digit' % ln))
            tot = z3.BitVecVal(0, 8)
            for x in b[:-1]:
                tot = tot + x
            conds.append((b[-1] == 255 - tot, 'checksum of record %d' % ln))
            conds.append((b[0] == z3.BitVecVal(len(b) - 1, 8), 'count field of record %d' % ln))
            t = s[1]
            if t in '123':
                n = int(t) + 1
                if len(b) < n + 2:
                    raise Bad('data record without data')
                ad = b[1]
                for x in b[2:n + 1]:
                    ad = z3.Concat(ad, x)
                if n < 4:
                    ad = z3.ZeroExt(32 - 8 * n, ad)
                recs.append((ad, b[n + 1:-1]))
            elif t in '789':
                if len(b) != 2 + (11 - int(t)):
                    raise Bad('end record of wrong length')
                ended = True
            else:
                raise Bad('record type S%s' % t)
    if not ended:
        raise Bad('no end record')
    return fmt, recs, conds


def simp(x):
    return z3.simplify(x) if z3.is_expr(x) else z3.BitVecVal(x, 32)


def image(path, out, cross=False):
    """Parse the code file, oblige its record validity, and return the bytes in file order as [(addr32, byte)]."""
    try:
        fmt, recs, conds = parse_code(out)
    except Bad as e:
        path.fail('code file: %s' % e)
        return None, []
    for c, w in conds:
        path.must(z3.simplify(c) if z3.is_expr(c) else c, 'code file: ' + w)
    r, inside = [], []
    for a, data in recs:
        a = z3.simplify(a)
        if cross and len(data) > 1:      # no record reaches beyond what its address field (S-record) or bank (HEX) covers
            low = z3.Extract(15, 0, a)
            if fmt == 'HEX':
                c = z3.ULE(low, 0x10000 - len(data))
            else:
                c = z3.Or(z3.ULE(low, 0x10000 - len(data)), z3.And(z3.UGT(a, 0xffff), z3.Or(z3.ULE(a, 0x1000000 - len(data)), z3.UGT(a, 0xffffff))))
            inside.append(c)
        for i, b in enumerate(data):
            r.append((z3.simplify(a + i), b))
    if inside:
        path.must(z3.simplify(z3.And(*inside)), 'code file: a record reaches beyond ' + ('its 64K bank' if fmt == 'HEX' else 'the addresses of its type'))
    return fmt, r


def must_image(path, out, expected, what='code', cross=False):
    """expected: [(address (int or bv32), byte (int or bv8))] in address-assignment order.  The code file must hold
    exactly these bytes at these addresses (as a set; later assignments to the same address come later)."""
    fmt, got = image(path, out, cross)
    if fmt is None:
        return
    if len(got) != len(expected):
        path.fail('%s: %d bytes in the code file, expected %d' % (what, len(got), len(expected)))
        return
    for i, ((a, b), e) in enumerate(zip(got, expected)):
        ea, eb = e[0], e[1]
        tag = e[2] if len(e) > 2 else ''
        ea = z3.BitVecVal(ea & 0xffffffff, 32) if isinstance(ea, int) else ea
        eb = z3.BitVecVal(eb & 0xff, 8) if isinstance(eb, int) else eb
        c = z3.simplify(z3.And(a == ea, b == eb))
        path.must(c, '%s: byte %d%s is at the wrong address or has the wrong value' % (what, i, (' (' + tag + ')') if tag else ''))


# ----------------------------------------------------------------------------- line specifications
class L:
    """One source line and what must come of it: bytes (list of int/bv8), or 'error'; warn: None (no claim), False or True"""
    def __init__(self, text, bytes=(), warn=False, skip=None, addr=None):
        self.text, self.bytes, self.warn, self.skip = text, bytes, warn, skip


def source(lines):
    return ''.join((l.text if isinstance(l, L) else l) + '\n' for l in lines)


def resolve(x, path):
    return x(path) if callable(x) else x


def check_lines(path, lines, org, run=0, codefile='o.hex', listing=True):
    """The program `lines` (assembled in one go from address org) must give exactly the stated bytes, errors and warnings."""
    r = path.runs[run]
    ls = Listing(r.listing)
    exp, nerr = [], 0
    pc = org if not isinstance(org, int) else z3.BitVecVal(org & 0xffffffff, 32)
    off = 0
    rowmap = ls.bynum
    for n, l in enumerate(lines, 1):
        if not isinstance(l, L):
            continue
        b = resolve(l.bytes, path)
        row = rowmap.get(n)
        if row is None:
            path.fail('line %d (%s) is missing from the listing' % (n, show(l.text)))
            return ls
        warn = resolve(l.warn, path)
        if b == 'error':
            nerr += 1
            if not row.errors:
                path.fail('line %d (%s) must be refused' % (n, show(l.text)))
            continue
        if b is None:
            continue
        if row.errors:
            path.fail('line %d (%s) must be accepted: %s' % (n, show(l.text), row.errors[0][1]))
            return ls
        if warn is False and row.warnings:
            path.fail('line %d (%s): unexpected warning: %s' % (n, show(l.text), row.warnings[0][1]))
        if warn is True and not row.warnings:
            path.fail('line %d (%s): no warning' % (n, show(l.text)))
        for x in b:
            exp.append((z3.simplify(pc + off), x, 'line %d %s' % (n, show(l.text))))
            off += 1
    if nerr == 0 and codefile:
        if ls.errors:
            path.fail('unexpected error: %s' % (ls.errors[0],))
        elif not exp:
            pass
        elif not r.has(codefile):
            path.fail('no code file')
        else:
            must_image(path, r.file(codefile), exp)
    elif nerr and codefile:
        if r.has(codefile):
            path.fail('code file left behind although lines were refused')
    return ls


def show(t):
    return ''.join(c if ord(c) < 0xE000 else '?' for c in t).strip()
