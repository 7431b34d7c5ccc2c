"""What the listing must say about each line: shared by C17, C18 and C23."""
import z3
from asm import Listing, SYM, conj
from sx import PUA


def chars(job, text):
    """source text -> list of ints / 8-bit terms, tabs expanded as the listing does, blanks at the end dropped"""
    out = []
    for ch in text:
        c = ord(ch)
        if c == 9:
            out.append(32)
            while len(out) % 8:
                out.append(32)
        elif c < PUA:
            out.append(c)
        else:
            v = job.vars[c - PUA]
            w = v.bv.size()
            x = v.bv if w == 8 else z3.ZeroExt(8 - w, v.bv)
            out.append(x if w == 8 else 48 + x if w < 4 else z3.If(z3.ULE(x, 9), 48 + x, 87 + x))
    while out and isinstance(out[-1], int) and out[-1] == 32:
        out.pop()
    return out


def same(path, out, want, what):
    """the text `out` is exactly `want` (blanks at the end aside)"""
    n = max(len(out.items), len(want))
    cs = []
    for i in range(n):
        g = out.items[i] if i < len(out.items) else 32
        w = want[i] if i < len(want) else 32
        if isinstance(g, int) and isinstance(w, int):
            if g != w:
                path.fail(what + ': text differs at column %d' % i); return
            continue
        g = z3.BitVecVal(g, 8) if isinstance(g, int) else path.nodes.z(g[1])
        w = z3.BitVecVal(w, 8) if isinstance(w, int) else w
        cs.append(z3.simplify(g == w))
    for c in cs:
        path.must(c, what + ': the text is not that of the source line')


def nonblank(items):
    return [i for i in items if not (isinstance(i, int) and i == 32)]


class R:
    """an expected row: text, line number or prefix, bytes from address on, value shown"""
    def __init__(self, text, bytes=(), addr=None, eq=None, num=None, pfx=None, error=False, warning=None, shown=None, many=None):
        self.text, self.bytes, self.addr, self.eq, self.num, self.pfx, self.error, self.warning = text, list(bytes), addr, eq, num, pfx, error, warning
        self.many = len(self.bytes) > 20 if many is None else many      # long lists of bytes may be cut short


def bv(x, n):
    if isinstance(x, int):
        return z3.BitVecVal(x, n)
    return z3.Extract(n - 1, 0, x) if x.size() > n else z3.ZeroExt(n - x.size(), x) if x.size() < n else x


def check_row(path, job, r, e, what):
    if (r.num, r.prefix) != (e.num, e.pfx):
        path.fail('%s: number or prefix is %s, not %s' % (what, r.num or r.prefix, e.num or e.pfx)); return False
    want = chars(job, e.text)
    wraps = getattr(r, 'wrap', [])
    if wraps:
        if len(want) <= 48:
            path.fail(what + ': wrapped although short')
        got = nonblank(r.text.items)
        for o in wraps:
            got += nonblank(o.items)
        class T: items = got
        same(path, T, nonblank(want), what)
    else:
        same(path, r.text, want, what)
    if bool(r.errors) != bool(e.error) and e.error is not None:
        path.fail('%s: %s' % (what, 'no error' if e.error else 'unexpected error %s' % (r.errors[0],)))
    if bool(r.warnings) != bool(e.warning) and e.warning is not None:
        path.fail('%s: %s' % (what, 'no warning' if e.warning else 'unexpected warning %s' % (r.warnings[0],)))
    # address or value of a line without code
    if e.eq is not None:
        if r.eq is None:
            path.fail(what + ': its value is not shown')
        else:
            v, ok = r.value()
            path.must(ok, what + ': value is no hex number')
            path.must(v == bv(e.eq, v.size()), what + ': wrong value shown')
    elif r.eq is not None:
        path.fail(what + ': a value is shown')
    # code
    if not e.bytes:
        if r.code:
            path.fail(what + ': code is shown for a line without code')
        return True
    if not r.code:
        path.fail(what + ': its code is not shown'); return True
    k = 0
    runs = r.cont
    for o, (a, b), (c, d) in runs:
        got, ok = o.hexbytes(c, d)
        path.must(ok, what + ': code is no hex number')
        ad, ok = o.hexnum(a, b)
        path.must(ok, what + ': address is no hex number')
        if k >= len(e.bytes):
            path.fail(what + ': more bytes shown than there are'); return True
        ea = e.bytes[k][0] if isinstance(e.bytes[k], tuple) else bv(e.addr, 32) + k
        path.must(z3.simplify(ad == bv(ea, ad.size())), what + ': wrong address')
        for j, g in enumerate(got):
            if k >= len(e.bytes):
                path.fail(what + ': more bytes shown than there are'); return True
            x = e.bytes[k]
            if isinstance(x, tuple):
                if j:
                    path.must(z3.simplify(bv(x[0], ad.size()) == ad + j), what + ': byte shown at a wrong address')
                x = x[1]
            path.must(z3.simplify(g == bv(x, 8)), what + ': wrong byte shown')
            k += 1
    if k < len(e.bytes) and (not e.many or k < 4):
        path.fail(what + ': only %d of %d bytes shown' % (k, len(e.bytes)))
    if r.dots and (k == len(e.bytes)):
        path.fail(what + ': dots after the last byte')
    return True


def check(path, job, rows, run=0):
    """the listing consists of exactly these rows (empty lines at the end of files aside)"""
    ls = Listing(path.runs[run].listing)
    got = ls.rows
    i = 0
    for n, e in enumerate(rows):
        while i < len(got) and e.text.strip() != '' and not got[i].text.items and not got[i].code:
            i += 1
        if i >= len(got):
            path.fail('line %d (%s) is missing from the listing' % (n, show(e.text))); return ls
        if not check_row(path, job, got[i], e, 'listed line %d (%s)' % (n, show(e.text))):
            return ls
        i += 1
    for r in got[i:]:
        if r.text.items or r.code:
            path.fail('a line too many: %r' % r); break
    return ls


def show(t):
    return ''.join(c if ord(c) < 0xE000 else '?' for c in t).strip()
