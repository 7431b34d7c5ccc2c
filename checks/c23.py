"""C23: the pages of the listing."""
import random, re, z3
from tmpl import *
from asm import Listing

BOUNDS = ('programs of 1 to 160 lines (thorough: 1500) with errors, warnings, macros, included files, symbol tables and PAGE and SKIP at any place; rows 0 and every value 10 to 200 (symbolic), columns every value from 39 to 999 in windows (quick: 39..102, 118..133, 176..191, 984..999; symbolic), '
          'titles of 0 to 30 symbolic characters, longer ones refused; up to four PAGE with sizes (symbolic) in one program; up to 1024 pages (thorough: 32769), -l; symbolic operands')
OUTSIDE = 'more than one NAM, PAGE changing the columns inside a program; how pages narrower than 62 columns break lines; LIST OFF; where a long line is broken'
R_HEAD = re.compile(r'^Crasm (\S+): ')
TCH = bytes(c for c in range(33, 127) if chr(c) not in '=;\'"()\\')


def pages(path, out, rows, cols, title, complete):
    """Checks the division of the output into pages; returns the lines between the headers [(page, place, Out)]"""
    ls = out.lines()
    content, k, n = [], 0, 0
    while not rows and k < len(ls) and not ls[k].shape:
        k += 1
    while k < len(ls):
        h = ls[k].shape
        n += 1
        m = R_HEAD.match(h)
        if not m:
            path.fail('page %d does not begin with a header but with %r' % (n, h)); return None
        if not h.endswith('page%3d' % n):
            path.fail('page %d is numbered %s' % (n, h[-8:])); return None
        if title is not None:
            t = h[m.end():]
            a = m.end() + 2 + 30 - len(title)
            if h[m.end():a].strip() or len(h) < a + len(title) or h[a + len(title):].replace('page%3d' % n, '').strip():
                path.fail('the header does not hold the title: %r' % h); return None
            for i, c in enumerate(title):
                path.must(z3.simplify(ls[k].bv(a + i) == c), 'wrong title in the header')
        if cols >= 62 and len(h) > cols:
            path.fail('the header has %d columns of %d' % (len(h), cols))
        body = ls[k + 1:k + rows if rows else len(ls)]
        if body and body[0].shape:
            path.fail('no empty line under the header'); return None
        if k + rows <= len(ls) and rows or rows and complete:
            if len(body) != rows - 1 or any(x.shape for x in body[-2:]):
                path.fail('page %d has not %d lines, the last two of them empty' % (n, rows)); return None
        for i, x in enumerate(body):
            if R_HEAD.match(x.shape):
                path.fail('a header inside page %d' % n); return None
            if i > 0 and (not rows or i < rows - 3):
                content.append((n, i, x))
        k += rows if rows else len(ls)
    return content


def diag(s):
    return re.match(r'^(>+ *| *)\d+ (ERROR|WARNING):', s)


def same(path, a, b):
    if len(a) != len(b):
        path.fail('%d lines in pages, %d without' % (len(a), len(b))); return
    for x, y in zip(a, b):
        if x.shape != y.shape:
            path.fail('another line in pages: %r instead of %r' % (x.shape, y.shape)); return
        for k in range(len(x.items)):
            if not isinstance(x.items[k], int):
                path.must(z3.simplify(x.bv(k) == y.bv(k)), 'another line in pages')


def program(rnd, cpu, n, v, what):
    src, files, lab = [], {'i1': ' db 1\nin1 = 5\n'}, 0
    for k in range(n):
        c = rnd.randrange(22)
        if c < 8:
            src.append('%s db %s,%d' % ('lab%d' % k if rnd.randrange(3) else '', v, k & 255))
        elif c < 10:
            src.append(' ds %d,7' % rnd.randrange(30))
        elif c == 10:
            src.append(' asc "%s"' % ('x' * rnd.randrange(1, 60)))
        elif c == 11:
            src.append('; ' + 'comment ' * rnd.randrange(1, 9))
        elif c == 12 and 'page' in what:
            src.append(' page ; %d' % k)
        elif c == 13 and 'page' in what:
            src.append(' skip %d' % rnd.choice((0, 1, 2, 5, 20)))
        elif c == 14:
            src.append(' m %s' % v)
        elif c == 15:
            src.append(' include i1')
        elif c == 16:
            src += [' if %d' % rnd.randrange(2), ' db 1', ' else', ' db 2', ' endc']
        elif c == 17:
            src.append(' db $100+%d' % k)
        elif c == 18 and 'error' in what:
            src.append(rnd.choice((' foo', ' db nosuch', ' fail again', ' db 1+')))
        elif c == 19:
            src.append(rnd.choice((' mlist on', ' mlist off')))
        else:
            src.append('')
    return [' cpu ' + cpu, ' include rows', ' page .rr,.cc', 'm macro', ' db \\1', ' db 2 ; in the macro', ' endm', ' * = $1000'] + src, files


def make(name, cpu, seed, n, rows, cols=(76, None), what=('page',), title=None, args=(), rowset=None, colset=None, maxpaths=400):
    """rows, cols: (constant, symbolic part or None)"""
    rnd = random.Random(seed)
    j = job(name, maxpaths=maxpaths, maxtime=100, maxinst=200_000_000)
    v = j.bits(8, prefix='%')
    T = None
    R = j.bits(rows[1]) if rows[1] else None
    C = j.bits(cols[1]) if cols[1] else None
    src, files = program(rnd, cpu, n, v, what)
    if title is not None:
        ts = [j.byte(TCH) if c == '?' else c for c in title]
        T = [z3.BitVecVal(ord(c), 8) if isinstance(c, str) else c.bv for c in ts]
        src.insert(1, ' nam ' + ''.join(c if isinstance(c, str) else c.text for c in ts))
    def orc(job, path):
        rn, cn = rows[0], cols[0]
        if R is not None:
            k = path.which(R.bv, list(range(1 << rows[1])))
            rn += k
        if C is not None:
            k = path.which(C.bv, list(range(1 << cols[1])))
            cn += k
        a, b = path.runs
        if a.code != 0 or b.code != 0:
            path.fail('fatal error'); return
        la = Listing(a.listing)
        bad = rn and (rn < 10 or rn > 200) or cn < 39 or cn > 999
        pe = [d for d in la.errors if 'llegal values' in d[2]]
        if bool(pe) != bool(bad):
            path.fail('PAGE %d,%d is %s' % (rn, cn, 'refused' if pe else 'accepted')); return
        if bad:
            rn, cn = 66, 76
        lopt = '-l' in args
        complete = not lopt and not la.errors or '-x' in args
        x = pages(path, a.listing, rn, cn, T if T is not None else [], complete)
        y = pages(path, b.listing, 66 if bad else 0, cn, T if T is not None else [], complete and bad)
        if x is None or y is None:
            return
        if not bad:
            same(path, [o for p, i, o in x if o.shape.strip()], [o for p, i, o in y if o.shape.strip()])
        if cn >= 62:
            for p, i, o in x:
                if len(o.shape) > cn and not diag(o.shape):
                    path.fail('a line of %d columns on a page of %d: %r' % (len(o.shape), cn, o.shape)); return
        if rn and not lopt:
            # PAGE begins a page, SKIP leaves lines
            num = {m.group(1): (p, i, t) for t, (p, i, o) in enumerate(x) for m in [re.match(r'^.{21} *(\d+)  ', o.shape)] if m and len(m.group(0)) == 28}
            for q, l in enumerate(src, 1):
                g = num.get(str(q))
                if g is None:
                    continue
                if l.startswith(' page ;') and g[1] != 1:
                    path.fail('line %d (PAGE) is not the first on its page' % q)
                if l.startswith(' skip '):
                    k = int(l.split()[1])
                    bl = 0
                    t = g[2]
                    while bl < t and not x[t - 1 - bl][2].shape.strip():
                        bl += 1
                    if bl < k:
                        path.fail('line %d: SKIP %d leaves %d lines' % (q, k, bl))
    j.oracle = orc
    rr = '%d' % rows[0] + ('+' + R.text if R else '')
    cc = '%d' % cols[0] + ('+' + C.text if C else '')
    al = ['crasm', '-o', 'o.hex'] + list(args) + ['a.asm']
    text = ''.join(l + '\n' for l in src)
    j.add({'a.asm': text, 'rows': '.rr = %s\n.cc = %s\n' % (rr, cc), **files}, args=al)
    j.add({'a.asm': text, 'rows': '.rr = 0\n.cc = %s\n' % cc, **files}, args=al)
    return j


def plain(ls):
    """the lines of a listing on a single page"""
    ls = list(ls)
    while ls and not ls[0].shape:
        ls.pop(0)
    return ls[2:] if ls and R_HEAD.match(ls[0].shape) else None


def resize(name, cpu, seed, sizes, gaps, bits=3):
    """PAGE with other sizes inside the program; the first, third... size has a symbolic part"""
    rnd = random.Random(seed)
    j = job(name, maxpaths=400, maxtime=100)
    v = j.bits(8, prefix='%')
    R = j.bits(bits) if bits else None
    src, at = [' cpu ' + cpu, ' include rows', 'm macro', ' db \\1', ' db 2', ' endm', ' * = $1000'], []
    for k, g in enumerate(gaps):
        src.append(' page .r%d,.cc' % k)
        at.append(len(src))
        for q in range(g):
            src.append(rnd.choice((' db %s,%d' % (v, q & 255), '; ' + 'c' * rnd.randrange(40), ' ds %d,7' % rnd.choice((1, 7, 14, 20)), '', ' m 3', 'l%d_%d nop' % (k, q), ' dw *')))
    src.append(' fail')
    def orc(job, path):
        a, b = path.runs
        if a.code != 0 or b.code != 0:
            path.fail('fatal error'); return
        d = path.which(R.bv, range(1 << bits)) if R is not None else 0
        sz = [x + d if k % 2 == 0 else x for k, x in enumerate(sizes)]
        want = plain(b.listing.lines())
        got = a.listing.lines()
        if want is None:
            path.fail('no header'); return
        q = next((q for q, w in enumerate(want) if w.shape.startswith('ERRORS:')), None)
        if q is None:
            path.fail('no summary'); return
        want, rest = want[:q], [w.shape for w in want[q:] if w.shape]
        while want and not want[-1].shape:
            want.pop()
        ppos, plen, page, i = 0, sz[-1], 0, 0
        def nxt():
            nonlocal i
            i += 1
            return got[i - 1] if i <= len(got) else None
        if not plen:
            while i < len(got) and not got[i].shape:
                i += 1
        for w in want:
            m = re.match(r'^.{21} *(\d+)   page \.r(\d+)', w.shape)
            if m:
                plen = sz[int(m.group(2))]
            if ppos == 0:
                h = nxt()
                page += 1
                if h is None or not R_HEAD.match(h.shape) or not h.shape.endswith('page%3d' % page):
                    path.fail('no header of page %d: %r' % (page, h and h.shape)); return
                e = nxt()
                if e is None or e.shape:
                    path.fail('no empty line under the header of page %d' % page); return
                ppos = 2
            g = nxt()
            if g is None or g.shape != w.shape:
                path.fail('page %d (of %d lines): %r where %r belongs' % (page, plen, g and g.shape, w.shape)); return
            for k in range(len(g.items)):
                if not isinstance(g.items[k], int):
                    path.must(z3.simplify(g.bv(k) == w.bv(k)), 'another line in pages')
            ppos += 1
            if plen and ppos >= plen - 2:
                for q in range(2):
                    e = nxt()
                    if e is None and i > len(got):
                        break
                    if e is None or e.shape:
                        path.fail('page %d does not end with empty lines' % page); return
                ppos = 0
        if [x.shape for x in got[i:] if x.shape and not R_HEAD.match(x.shape)] != rest:
            path.fail('another summary')
    j.oracle = orc
    text = ''.join(l + '\n' for l in src)
    rows = '.cc = 76\n' + ''.join('.r%d = %d%s\n' % (k, x, '+' + R.text if k % 2 == 0 and R else '') for k, x in enumerate(sizes))
    zero = '.cc = 76\n' + ''.join('.r%d = 0\n' % k for k, x in enumerate(sizes))
    j.add({'a.asm': text, 'rows': rows})
    j.add({'a.asm': text, 'rows': zero})
    return j


def longtitle(n):
    j = job('long title %d' % n, maxpaths=60)
    cs = [j.byte(TCH) for _ in range(2)]
    t = cs[0].text + 'x' * (n - 2) + cs[1].text
    T = [cs[0].bv] + [z3.BitVecVal(120, 8)] * (n - 2) + [cs[1].bv] if n <= 30 else []
    def orc(job, path):
        r = path.runs[0]
        ls = Listing(r.listing)
        e = [m[0] for m in ls.errors]
        if e != ([2] if n > 30 else []):
            path.fail('a title of %d characters: errors at %s' % (n, e))
        if r.code != 0:
            path.fail('exit status %d' % r.code); return
        pages(path, r.listing, 66, 76, T, not e)
    j.oracle = orc
    j.add(' cpu 6800\n nam %s\n * = $1000\n db 1\n' % t)
    return j


def farpages(n):
    """about n pages, most of them left by SKIP"""
    j = job('page %d' % n, maxpaths=60, maxinst=4_000_000_000, maxtime=400)
    v = j.bits(8, prefix='%')
    cs = j.byte(TCH)
    # SKIP 100 leaves 100 lines, a page of 10 has 6
    k = n * 6 // 100
    src = [' cpu 6800', ' nam T' + cs.text, ' page 10,76', ' * = $1000'] + [' skip 100'] * k + [' db %s' % v] * 12
    def orc(job, path):
        r = path.runs[0]
        if r.code != 0 or Listing(r.listing).errors:
            path.fail('refused'); return
        x = pages(path, r.listing, 10, 76, [z3.BitVecVal(ord('T'), 8), cs.bv], True)
        if x is not None and abs(x[-1][0] - n) > 25:
            path.fail('%d pages of about %d' % (x[-1][0], n))
    j.oracle = orc
    j.add(''.join(t + '\n' for t in src))
    return j


def jobs(tier):
    big = tier == 'thorough'
    J = []
    cpus = ('6502', '6800', 'z80')
    # every number of rows
    for k, base in enumerate(range(0, 208, 16)):
        for q in range(2 if base in (16, 64) and not big else 1 if not big else 4):
            J.append(make('rows 4 bits from %d, %d' % (base, q), cpus[k % 3], 10 * k + q, (14, 55, 30, 100)[q] if base else 8, (base, 4), title='A title' if q else None))
    for c in (208, 255, 256, 65536 + 66):
        J.append(make('rows %d' % c, '6800', c, 8, (c, None)))
    for k in range(24 if not big else 120):
        rows = (66, 10, 11, 12, 20, 50, 200, 0)[k % 8]
        args = ((), ('-l',), ('-x',), ('-l', '-x'), ('-s',))[k % 5]
        what = ('page', 'error') if k % 3 == 0 else ('page',) if k % 3 == 1 else ()
        J.append(make('program %d' % k, cpus[k % 3], 500 + k, (3, 20, 60, 100, 160)[k % 5], (rows, None), ((76, 62, 80, 132)[k % 4], None), what, ('', None, 'T', 'A longer title ? with 30 chars')[k % 4] or None, args))
    # every number of columns
    for base, n in ((39, 6), (118, 4), (176, 4), (984, 4)) if not big else ((39, 6), (103, 6), (167, 6), (231, 7), (359, 7), (487, 8), (743, 8)):
        J.append(make('columns %d bits from %d' % (n, base), cpus[base % 3], base, 12, (66, None), (base, n), ('page',), maxpaths=600))
    for c in (0, 38, 1000, 1001, 65536 + 76):
        J.append(make('columns %d' % c, '6502', c, 8, (66, None), (c, None)))
    # titles
    for n in (1, 2, 30) if not big else range(1, 31):
        J.append(make('title of %d' % n, '6800', n, 6, (20, None), title='?' + 'x' * max(0, n - 2) + ('?' if n > 1 else '')))
    for n in (28, 29, 30, 31, 32, 33, 36, 60, 150):
        J.append(longtitle(n))
    # other sizes inside the program
    for k, (sizes, gaps) in enumerate((((40, 12), (20, 30)), ((40, 12), (8, 25)), ((60, 20, 60), (50, 40, 30)), ((10, 66), (30, 90)), ((0, 20), (50, 30)) , ((20, 0), (10, 40)), ((100, 10, 100, 11), (93, 1, 2, 30)), ((30, 30, 13), (27, 27, 27)), ((50, 10), (3, 9)), ((50, 12, 50), (45, 4, 60)))):
        for q in range(1 if not big else 6):
            J.append(resize('sizes %d %d' % (k, q), cpus[k % 3], 50 * k + q, sizes, gaps, 0 if 0 in sizes else 3))
    # page numbers of any size
    for n in (99, 127, 128, 129, 255, 256, 257, 400) + ((999, 1000, 1024) if not big else (999, 1000, 1001, 2049, 9999, 10000, 10001, 32769)):
        J.append(farpages(n))
    J.append(make('many pages', '6502', 7, 400 if not big else 1500, (10, None), what=()))
    return J
