"""Driver: builds the engine and the program's bitcode from /repo, runs symbolic jobs on a pool of
engine processes, lets oracles state obligations over the symbolic outputs, discharges them with z3,
replays counterexamples (and a sample of ordinary paths) on the natively compiled program."""
import os, sys, subprocess, json, re, time, hashlib, tempfile, shutil, fcntl, multiprocessing, random, traceback, signal
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CRASM_REPO', '/repo')
ENGINE_DIR = os.path.join(VERIF, 'engine')
BUILD = os.path.join(VERIF, 'build')
NATIVE_TIMEOUT = 20
PUA = 0xE000


# ----------------------------------------------------------------------------- building
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise RuntimeError('command failed: %s\n%s' % (cmd, r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout


def build_engine():
    """Compile the engine into /verif/build unless the binary there was built from these sources."""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ('symex.cpp', 'expr.h'):
        h.update(open(os.path.join(ENGINE_DIR, f), 'rb').read())
    out = os.path.join(BUILD, 'symex-' + h.hexdigest()[:16])
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                if f.startswith('symex-'):
                    os.unlink(os.path.join(BUILD, f))
            sh(['g++', '-O2', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-o', out + '.tmp',
                os.path.join(ENGINE_DIR, 'symex.cpp'), '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
            os.rename(out + '.tmp', out)
    return out


def repo_sources():
    d = os.path.join(REPO, 'src')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.c')]


FAULTY = 'fopen fclose malloc fputc putc putchar fputs puts fwrite vfprintf fprintf printf vprintf ferror clearerr fflush'.split()


class Build:
    """Everything rebuilt from /repo's working tree for this run, in a scratch directory."""
    def __init__(self, want_asan=True):
        self.dir = tempfile.mkdtemp(prefix='crasmvp.')
        self.engine = None
        t = time.time()
        self.bc = os.path.join(self.dir, 'prog.bc')
        self.native = os.path.join(self.dir, 'crasm')
        self.asan = os.path.join(self.dir, 'crasm-asan')
        self.msan = os.path.join(self.dir, 'crasm-msan')
        src = repo_sources()
        procs = []
        clang = '/usr/bin/clang-18'
        flags = ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-D__NO_CTYPE', '-fno-builtin', '-emit-llvm', '-c', '-w']
        objs = []
        for f in src + [os.path.join(ENGINE_DIR, 'libc.c')]:
            o = os.path.join(self.dir, ('sx_' if 'engine' in f else 'r_') + os.path.basename(f) + '.bc')
            objs.append(o)
            procs.append(subprocess.Popen([clang] + flags + ['-I', os.path.join(REPO, 'src'), '-o', o, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        # same compiler and flags as the project's Makefile
        procs.append(subprocess.Popen(['gcc', '-O', '-w', '-o', self.native] + src + ['-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        procs.append(subprocess.Popen([clang, '-O1', '-g', '-w', '-fsanitize=address,bounds,integer-divide-by-zero', '-fno-sanitize-recover=all', '-o', self.asan] + src + ['-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        self.faulty = os.path.join(self.dir, 'crasm-faulty')
        procs.append(subprocess.Popen([clang, '-O1', '-g', '-w', '-fsanitize=address,bounds,integer-divide-by-zero', '-fno-sanitize-recover=all', '-fno-builtin', '-o', self.faulty] + src + [os.path.join(ENGINE_DIR, 'faults.c'), '-lm'] + ['-Wl,--wrap=%s' % f for f in FAULTY], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        procs.append(subprocess.Popen([clang, '-O1', '-g', '-w', '-fsanitize=memory', '-o', self.msan] + src + ['-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        self.engine = build_engine()
        for p in procs:
            o = p.communicate()[0]
            if p.returncode:
                raise RuntimeError('build failed: %s' % o.decode(errors='replace')[-3000:])
        sh(['/usr/lib/llvm-18/bin/llvm-link', '-o', self.bc] + objs)
        self.wall = time.time() - t

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ----------------------------------------------------------------------------- templates
class Var:
    __slots__ = ('idx', 'w', 'dom', 'name', 'bv', 'free')

    def __init__(self, idx, w, dom, name):
        self.idx, self.w, self.dom, self.name = idx, w, dom, name
        # bits which have one value over the whole domain are constants; the others are the solver's variables
        one = zero = (1 << w) - 1
        for x in dom:
            one &= x
            zero &= ~x
        parts, self.free = [], []
        i = w - 1
        while i >= 0:
            k, j = (one | zero) >> i & 1, i
            while j > 0 and (one | zero) >> (j - 1) & 1 == k:
                j -= 1
            if k:
                parts.append(z3.BitVecVal(one >> j, i - j + 1))
            else:
                parts.append(z3.BitVec('v%d' % idx if i - j + 1 == w else 'v%d_%d' % (idx, j), i - j + 1))
                self.free.append((parts[-1], j))
            i = j - 1
        self.bv = parts[0] if len(parts) == 1 else z3.Concat(*parts)


class Num:
    """A symbolic number written into the program text: .text is its spelling, .bv its value."""
    def __init__(self, text, bv, vars):
        self.text, self.bv, self.vars = text, bv, vars

    def __str__(self):
        return self.text


def chars(*specs):
    s = set()
    for x in specs:
        if isinstance(x, str):
            s |= {ord(c) for c in x}
        elif isinstance(x, tuple):
            s |= set(range(x[0], x[1] + 1))
        else:
            s |= set(x)
    return s


class Run:
    def __init__(self, files, args=('crasm', '-o', 'o.hex', '-x', 'a.asm'), stdout='<stdout>', faults=()):
        self.files, self.args, self.faults = files, list(args), list(faults)


class Fault:
    """An operation (open, read, write, close, malloc) on a file which fails from the count base + scale * num on, or only there"""
    def __init__(self, kind, name='', base=0, num=None, scale=1, once=False, err=28):
        self.kind, self.name, self.base, self.num, self.scale, self.once, self.err = kind, name or '*', base, num, scale, once, err

    def at(self, wit):
        return self.base + (self.scale * wit[self.num.vars[0].idx] if self.num is not None else 0)


class Job:
    """One symbolic exploration: variables, one or more runs of the program, and an oracle."""
    def __init__(self, name, oracle, maxinst=60_000_000, maxpaths=300, maxtime=40, weight=1, allow_crash=False, group=None, expect_paths=1):
        self.name, self.oracle = name, oracle
        self.vars, self.runs = [], []
        self.maxinst, self.maxpaths, self.maxtime, self.weight = maxinst, maxpaths, maxtime, weight
        self.expect_paths = expect_paths
        self.allow_crash = allow_crash
        self.memo = {}

    # holes -------------------------------------------------------------
    def var(self, w, dom=None, name=''):
        v = Var(len(self.vars), w, frozenset(dom if dom is not None else range(1 << w)), name)
        self.vars.append(v)
        return v

    def byte(self, dom, name=''):
        v = self.var(8, dom, name)
        return Num(chr(PUA + v.idx), v.bv, [v])

    def count(self, w, dom=None, name=''):
        """a number which is not part of the text (the place of a fault)"""
        v = self.var(w, dom, name)
        return Num('', v.bv, [v])

    def string(self, n, dom, name=''):
        bs = [self.byte(dom, name) for _ in range(n)]
        r = Num(''.join(b.text for b in bs), None, [b.vars[0] for b in bs])
        r.chars = [b.bv for b in bs]
        return r

    def bits(self, n, name='', prefix='%'):
        """n-bit number spelled as a binary constant."""
        vs = [self.var(1, None, name) for _ in range(n)]
        return Num(prefix + ''.join(chr(PUA + v.idx) for v in vs), z3.Concat(*[v.bv for v in vs]) if n > 1 else vs[0].bv, vs)

    def hexnum(self, n, prefix='$', name='', lead=None):
        vs = [self.var(4, None, name) for _ in range(n)]
        return Num(prefix + ''.join(chr(PUA + v.idx) for v in vs), z3.Concat(*[v.bv for v in vs]) if n > 1 else vs[0].bv, vs)

    def octnum(self, n, prefix='@', name=''):
        vs = [self.var(3, None, name) for _ in range(n)]
        return Num(prefix + ''.join(chr(PUA + v.idx) for v in vs), z3.Concat(*[v.bv for v in vs]) if n > 1 else vs[0].bv, vs)

    def add(self, files, args=('crasm', '-o', 'o.hex', '-x', 'a.asm'), faults=()):
        if isinstance(files, str):
            files = {'a.asm': files}
        self.runs.append(Run(files, args, faults=faults))
        return self

    # serialisation -----------------------------------------------------
    @staticmethod
    def enc(s):
        o = []
        for ch in s:
            c = ord(ch)
            if c >= PUA:
                o.append('$%d;' % (c - PUA))
            elif ch.isalnum() and c < 128 or ch in '._-/<>':
                o.append(ch)
            else:
                o.append('%%%02x' % c)
        return ''.join(o)

    def text(self):
        L = ['JOB j', 'LIMIT %d %d %g' % (self.maxinst, self.maxpaths, self.maxtime)]
        for v in self.vars:
            m = sum(1 << i for i in v.dom)
            L.append('VAR %d %064x' % (v.w, m))
        for r in self.runs:
            L.append('RUN')
            L += ['ARG ' + self.enc(a) for a in r.args]
            L += ['FILE %s %s' % (self.enc(k), self.enc(v)) for k, v in r.files.items()]
            for f in r.faults:
                L.append('FAULT %s %s %d %d %d %d %d' % (f.kind, self.enc(f.name), f.base, f.scale, f.num.vars[0].idx if f.num is not None else -1, f.once, f.err))
        L.append('GO')
        return '\n'.join(L) + '\n'

    def concrete(self, s, wit):
        o = bytearray()
        for ch in s:
            c = ord(ch)
            if c >= PUA:
                v = self.vars[c - PUA]
                x = wit[v.idx]
                o.append(x if v.w == 8 else ord('0123456789abcdef'[x]) if v.w == 4 else 48 + x)
            else:
                o.append(c)
        return bytes(o)


# ----------------------------------------------------------------------------- symbolic values
class Nodes:
    """z3 translation of the engine's expression nodes for one job."""
    def __init__(self, job):
        self.job, self.n, self.zc = job, {}, {}
        self.undef = set()
        self.uvars = {}

    def z(self, i):
        r = self.zc.get(i)
        if r is not None:
            return r
        stack = [i]
        while stack:
            k = stack[-1]
            if k in self.zc:
                stack.pop(); continue
            nd = self.n[k]
            op = nd[1]
            if op == 'wire':
                deps = {p[0] for p in nd[3] if p[0]}
            elif op in ('const', 'var'):
                deps = ()
            elif op == 'tab':
                deps = (nd[3],)
            else:
                deps = nd[3:]
            miss = [d for d in deps if d not in self.zc]
            if miss:
                stack += miss; continue
            stack.pop()
            self.zc[k] = self.mk(nd)
        return self.zc[i]

    def mk(self, nd):
        _, op, w = nd[:3]
        Z = self.zc
        b1 = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == 'const':
            return z3.BitVecVal(nd[3], w)
        if op == 'var':
            i = nd[3]
            if i < len(self.job.vars):
                return self.job.vars[i].bv
            self.undef.add(i)
            return z3.BitVec('undef%d' % i, w)
        if op == 'wire':
            parts = []
            for a, lo, n in nd[3]:
                if a == 0:
                    parts.append(z3.BitVecVal(lo, n))
                else:
                    e = Z[a]
                    parts.append(e if lo == 0 and n == e.size() else z3.Extract(lo + n - 1, lo, e))
            parts.reverse()
            return parts[0] if len(parts) == 1 else z3.Concat(*parts)
        if op == 'tab':
            ix, t = Z[nd[3]], nd[4]
            runs = []
            s = 0
            while s < len(t):
                e = s
                while e + 1 < len(t) and (t[e + 1] - (e + 1)) % (1 << w) == (t[s] - s) % (1 << w):
                    e += 1
                f = s
                while f + 1 < len(t) and t[f + 1] == t[s]:
                    f += 1
                if f >= e:
                    runs.append((s, f, 'c', t[s])); s = f + 1
                else:
                    runs.append((s, e, 'd', (t[s] - s) % (1 << w))); s = e + 1
            wi = ix.size()
            ixw = ix if wi == w else z3.ZeroExt(w - wi, ix) if wi < w else z3.Extract(w - 1, 0, ix)
            def val(r):
                return z3.BitVecVal(r[3], w) if r[2] == 'c' else ixw + z3.BitVecVal(r[3], w)
            r = val(runs[-1])
            for q in reversed(runs[:-1]):
                r = z3.If(z3.ULE(ix, z3.BitVecVal(q[1], wi)), val(q), r)
            return r
        a = Z[nd[3]]
        b = Z[nd[4]] if len(nd) > 4 else None
        if op == 'ite':
            return z3.If(a == z3.BitVecVal(1, 1), b, Z[nd[5]])
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op == 'udiv': return z3.UDiv(a, b)
        if op == 'sdiv': return a / b
        if op == 'urem': return z3.URem(a, b)
        if op == 'srem': return z3.SRem(a, b)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor':
            if w > 1 and z3.is_bv_value(b) and b.as_long() == (1 << w) - 1:
                return z3.BitVecVal(-1, w) - a          # linear form: the simplifier normalises check sums
            return a ^ b
        if op == 'shl': return a << b
        if op == 'lshr': return z3.LShR(a, b)
        if op == 'ashr': return a >> b
        if op == 'eq': return b1(a == b)
        if op == 'ult': return b1(z3.ULT(a, b))
        if op == 'ule': return b1(z3.ULE(a, b))
        if op == 'slt': return b1(a < b)
        if op == 'sle': return b1(a <= b)
        raise RuntimeError('node ' + op)


UP = [ord(c) for c in '0123456789ABCDEF']
LO = [ord(c) for c in '0123456789abcdef']


def ishex(t):
    return len(t) <= 16 and (t == UP[:len(t)] or t == LO[:len(t)])


def hexval(items):
    """items: list of int (char codes) or z3 8-bit exprs or ('tab-hex' nodes).  -> z3 value of the hex digits, and
    the condition under which they all are hex digits."""
    raise NotImplementedError


class Out:
    """Bytes of an output: ints, or node ids (negative = symbolic item index)."""
    def __init__(self, path, segs):
        self.path = path
        self.items = []
        for s in segs:
            if isinstance(s, str):
                self.items.extend(ord(c) for c in s)
            else:
                self.items.append(('n', s))

    @property
    def shape(self):
        """text in which every symbolic byte is the private-use character U+E000"""
        if not hasattr(self, '_shape'):
            self._shape = ''.join(chr(i) if isinstance(i, int) else '\ue000' for i in self.items)
        return self._shape

    def bv(self, k):
        i = self.items[k]
        return z3.BitVecVal(i, 8) if isinstance(i, int) else self.path.nodes.z(i[1])

    def sub(self, a, b):
        o = Out(self.path, [])
        o.items = self.items[a:b]
        return o

    def lines(self):
        r = []
        s = self.shape
        p = 0
        while p < len(s):
            q = s.find('\n', p)
            if q < 0:
                q = len(s)
            r.append(self.sub(p, q))
            p = q + 1
        return r

    def hexdigit(self, k):
        """(4-bit z3 value of the hex digit at position k, validity condition)"""
        i = self.items[k]
        if isinstance(i, int):
            c = chr(i)
            if c in '0123456789abcdefABCDEF':
                return z3.BitVecVal(int(c, 16), 4), True
            return z3.BitVecVal(0, 4), False
        nd = self.path.nodes.n[i[1]]
        if nd[1] == 'tab' and ishex(nd[4]):
            x = self.path.nodes.z(nd[3])
            return z3.Extract(3, 0, x) if x.size() >= 4 else z3.ZeroExt(4 - x.size(), x), True
        e = self.path.nodes.z(i[1])
        isd = z3.And(z3.UGE(e, 48), z3.ULE(e, 57))
        isu = z3.And(z3.UGE(e, 65), z3.ULE(e, 70))
        isl = z3.And(z3.UGE(e, 97), z3.ULE(e, 102))
        v = z3.If(isd, e - 48, z3.If(isu, e - 55, e - 87))
        return z3.Extract(3, 0, v), z3.Or(isd, isu, isl)

    def digit_pieces(self, k):
        """the hex digit at position k as bit ranges [(atom node, lowest bit, number of bits)], most significant first;
        None when it is no table look-up"""
        i = self.items[k]
        if isinstance(i, int):
            c = chr(i)
            return [(0, int(c, 16), 4)] if c in '0123456789abcdefABCDEF' else None
        N = self.path.nodes.n
        nd = N[i[1]]
        if nd[1] != 'tab' or not ishex(nd[4]):
            return None
        ix = N[nd[3]]
        if ix[1] != 'wire':
            n = min(4, ix[2])
            return ([(0, 0, 4 - n)] if n < 4 else []) + [(nd[3], 0, n)]
        r, left = [], 4
        for at, lo, n in ix[3]:
            m = min(n, left)
            r.append((at, lo & ((1 << m) - 1) if at == 0 else lo, m))
            left -= m
            if not left:
                break
        if left:
            r.append((0, 0, left))
        return r[::-1]

    def hexnum(self, a, b):
        """value of hex digits at [a,b) as a 4*(b-a)-bit vector, with validity condition"""
        ps, cs = [], []
        for k in range(a, b):
            p = self.digit_pieces(k)
            if p is None:
                v, c = self.hexdigit(k)
                ps.append(v)
                if c is not True:
                    cs.append(c)
                continue
            for q in p:
                if ps and isinstance(ps[-1], tuple):
                    at, lo, n = ps[-1]
                    if at == q[0] == 0:
                        ps[-1] = (0, lo << q[2] | q[1], n + q[2]); continue
                    if at and at == q[0] and lo == q[1] + q[2]:
                        ps[-1] = (at, q[1], n + q[2]); continue
                ps.append(q)
        vs = []
        for q in ps:
            if not isinstance(q, tuple):
                vs.append(q)
            elif q[0] == 0:
                vs.append(z3.BitVecVal(q[1], q[2]))
            else:
                e = self.path.nodes.z(q[0])
                vs.append(e if q[1] == 0 and q[2] == e.size() else z3.Extract(q[1] + q[2] - 1, q[1], e))
        r = vs[0] if len(vs) == 1 else z3.Concat(*vs)
        return r, (True if not cs else False if any(c is False for c in cs) else z3.And(*cs))

    def hexbytes(self, a, b):
        """hex digits at [a,b) -> list of 8-bit z3 values, validity condition"""
        r, cs = [], []
        for k in range(a, b - 1, 2):
            v, c = self.hexnum(k, k + 2)
            r.append(v)
            if c is not True:
                cs.append(c)
        return r, (True if not cs else False if any(c is False for c in cs) else z3.And(*cs))

    def is_symbolic(self, k):
        return not isinstance(self.items[k], int)

    def render(self, subs=None):
        if subs is None:
            return ''.join(chr(i) if isinstance(i, int) else '?' for i in self.items)
        return bytes(i if isinstance(i, int) else subs(i[1]) for i in self.items)

    def undef(self):
        """does the output contain a value read from uninitialised memory?"""
        for i in self.items:
            if not isinstance(i, int):
                for v in z3vars(self.path.nodes.z(i[1])):
                    if v.startswith('undef'):
                        return True
        return False


def z3vars(e, memo=None):
    seen, r, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.add(x.decl().name())
        st.extend(x.children())
    return r


class RunView:
    def __init__(self, path, d, spec):
        self.path, self.spec = path, spec
        self.status, self.code, self.where, self.notes = d['status'], d['code'], d['where'], d['notes']
        self.insts = d['insts']
        self.opened = d.get('opened', [])
        self.gone = d.get('gone', [])
        self._f = d['files']
        self._o = {}

    def has(self, name):
        """the file is there and was written (or has another content than before)"""
        return name in self._f

    def left(self, name):
        """a file of that name is there in the end, if only the one from before"""
        return name in self._f or name in self.spec.files and name not in self.gone

    def file(self, name):
        if name not in self._f:
            return None
        if name not in self._o:
            self._o[name] = Out(self.path, self._f[name])
        return self._o[name]

    @property
    def listing(self):
        return self.file('<stdout>')

    @property
    def crashed(self):
        return self.status.startswith('crash')


def subst(job, wit):
    return [(f, z3.BitVecVal(wit[v.idx] >> lo, f.size())) for v in job.vars for f, lo in v.free]


class Path:
    """One explored path: final outputs of every run plus the path condition."""
    def __init__(self, job, nodes, d, concrete=None):
        self.job, self.nodes, self.d = job, nodes, d
        self.concrete = concrete            # witness when this is a native replay
        self.runs = [RunView(self, r, s) for r, s in zip(d['runs'], job.runs)]
        self.wit = d['wit']
        self.obl = []
        self.extra = []          # case splits of the oracle (see split)
        self.dom = {}
        for k, v in d['dom'].items():
            m = int(v, 16)
            self.dom[int(k)] = m

    @property
    def pc(self):
        if not hasattr(self, '_pc'):
            cs = [self.nodes.z(i) == 1 for i in self.d['pc']]
            for v in self.job.vars:
                m = self.dom.get(v.idx)
                vals = sorted(v.dom) if m is None else [i for i in range(1 << v.w) if m >> i & 1]
                if len(vals) == 1 << v.w:
                    continue
                cs.append(rangecond(v.bv, vals))
            self._pc = cs
        return self._pc + self.extra

    def domain(self, var):
        v = var.vars[0] if isinstance(var, Num) else var
        m = self.dom.get(v.idx)
        if self.concrete is not None:
            return [self.concrete[v.idx]]
        return sorted(v.dom) if m is None else [i for i in range(1 << v.w) if m >> i & 1]

    def must(self, cond, what, finding=None, when=None):
        """obligation: cond holds for every input of this path.  finding/when: a listed known finding which
        permits cond to fail, for inputs satisfying `when` only."""
        if cond is True or (finding is None and z3.is_expr(cond) and z3.is_true(cond)):
            self.job.memo['trivial'] = self.job.memo.get('trivial', 0) + 1
            self.obl.append(None)
            return
        if cond is False:
            cond = z3.BoolVal(False)
        self.obl.append((cond, what, finding, when))

    def fail(self, what, finding=None, when=None):
        self.must(False, what, finding, when)

    def feasible(self, cond):
        """is cond satisfiable on this path? (used by oracles to see which side of a case split a path is on)"""
        if self.concrete is not None:
            return z3.is_true(z3.simplify(z3.substitute(cond, *self.subst())))
        s = z3.SolverFor('QF_BV'); s.set('timeout', 20000)
        s.add(*self.pc); s.add(cond)
        r = s.check()
        self.job.memo['feas'] = self.job.memo.get('feas', 0) + 1
        if r == z3.unknown:
            raise Inconclusive('solver unknown in case split')
        return r == z3.sat

    def holds(self, cond):
        return not self.feasible(z3.Not(cond))

    def split(self, cond):
        """True or False; where the path does not decide cond the oracle is run again for either case"""
        if self.holds(cond):
            return True
        if not self.feasible(cond):
            return False
        raise CaseSplit(cond)

    def which(self, bv, values):
        """the value of bv, one of values (case split); None when it is none of them"""
        if self.concrete is None and len(values) > 8:
            ks = [k for k in values if self.feasible(bv == k)]
            if len(ks) > 1:
                raise CaseSplit(bv == ks[0])
            return ks[0] if ks and self.holds(bv == ks[0]) else None
        for k in values:
            if self.split(bv == k):
                return k
        return None

    def subst(self):
        return subst(self.job, self.concrete) or [(z3.BitVec('none', 1), z3.BitVecVal(0, 1))]


class Inconclusive(Exception):
    pass


class CaseSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


def cases(job, path, crashed=None):
    """run the oracle on the path; yields once per case it asks for"""
    todo, n = [[]], 0
    while todo:
        path.extra = todo.pop()
        path.obl = []
        n += 1
        if n > 300:
            raise Inconclusive('too many cases')
        try:
            if crashed:
                path.fail(crashed)
            else:
                job.oracle(job, path)
        except CaseSplit as e:
            todo += [path.extra + [z3.Not(e.cond)], path.extra + [e.cond]]
            continue
        yield
    path.extra = []


def rangecond(bv, vals):
    cs, i = [], 0
    w = bv.size()
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        if i == j:
            cs.append(bv == vals[i])
        else:
            cs.append(z3.And(z3.UGE(bv, z3.BitVecVal(vals[i], w)), z3.ULE(bv, z3.BitVecVal(vals[j], w))))
        i = j + 1
    return cs[0] if len(cs) == 1 else z3.Or(*cs)


# ----------------------------------------------------------------------------- native runs
class NativeRes:
    pass


def native_run(build, job, run, wit, exe=None, timeout=NATIVE_TIMEOUT):
    """Run the natively compiled program on the concrete instance, in a scratch directory."""
    d = tempfile.mkdtemp(prefix='nat.', dir=build.dir)
    try:
        for n, c in run.files.items():
            p = os.path.join(d, n)
            if '/' in n:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(job.concrete(c, wit))
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout + 1))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_NOFILE, (24, 24))
        r = NativeRes()
        so = os.path.join(build.dir, 'so.%d' % os.getpid())
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='exitcode=98', MSAN_OPTIONS='exitcode=97')
        if run.faults:
            exe = build.faulty
            env['VP_FAULTS'] = ''.join('%s %s %d %d %d\n' % (f.kind, f.name, f.at(wit), f.once, f.err) for f in run.faults)
        with open(so, 'wb') as f:
            try:
                p = subprocess.run([exe or build.native] + [job.concrete(a, wit).decode('latin1') for a in run.args[1:]], cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, timeout=timeout * 2, preexec_fn=lim, env=env)
                r.rc, r.stderr = p.returncode, p.stderr.decode('latin1')
            except subprocess.TimeoutExpired:
                r.rc, r.stderr = -signal.SIGXCPU, ''
        r.stdout = open(so, 'rb').read()
        r.files = {}
        for root, _, fs in os.walk(d):
            for n in fs:
                p = os.path.join(root, n)
                r.files[os.path.relpath(p, d)] = open(p, 'rb').read()
        r.crashed = r.rc < 0 or r.rc in (97, 98, 99)
        r.hang = r.rc in (-signal.SIGXCPU, -signal.SIGKILL)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def native_path(build, job, wit, exe=None):
    """Run every run of the job natively; present the results as a concrete Path."""
    runs, raw = [], []
    for run in job.runs:
        r = native_run(build, job, run, wit, exe)
        raw.append(r)
        files = {'<stdout>': [r.stdout.decode('latin1')]}
        for n, c in r.files.items():
            if n in run.files and c == job.concrete(run.files[n], wit):
                continue
            files[n] = [c.decode('latin1')]
        st = 'exit' if not r.crashed else 'crash:hang' if r.hang else 'crash:signal %d %s' % (r.rc, ' '.join(re.findall(r'(?:(?:ERROR|WARNING): (?:Address|Memory)Sanitizer: \S+|runtime error: [^\n]+)', r.stderr)[:1]))
        runs.append({'status': st, 'code': r.rc, 'where': 'native', 'insts': 0, 'notes': [], 'files': files, 'opened': [],
                     'gone': [n for n in run.files if n not in r.files]})
    return Path(job, Nodes(job), {'runs': runs, 'pc': [], 'dom': {}, 'wit': wit}, concrete=wit), raw


# ----------------------------------------------------------------------------- evaluating obligations
def evalwit(nodes, wit, job):
    subs = subst(job, wit)
    cache = {}

    def f(i):
        if i not in cache:
            e = nodes.z(i)
            e = z3.simplify(z3.substitute(e, *subs)) if subs else z3.simplify(e)
            cache[i] = e.as_long() if z3.is_bv_value(e) else -1
        return cache[i]
    return f


NARROW = {z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_ITE}


def canon(e):
    """an equal term in which every extraction from a sum or product is made from as narrow a one as possible"""
    memo = {}

    def low(x, n):
        """the n low bits of x"""
        if x.size() == n:
            return x
        k = (x.get_id(), n)
        if k not in memo:
            d = x.decl().kind()
            if d in NARROW:
                c = [y if z3.is_bool(y) else low(y, n) for y in x.children()]
                if d == z3.Z3_OP_BADD:
                    r = c[0]
                    for y in c[1:]:
                        r = r + y
                elif d == z3.Z3_OP_BMUL:
                    r = c[0]
                    for y in c[1:]:
                        r = r * y
                elif d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
                    r = c[0]
                    for y in c[1:]:
                        r = r & y if d == z3.Z3_OP_BAND else r | y if d == z3.Z3_OP_BOR else r ^ y
                elif d == z3.Z3_OP_ITE:
                    r = z3.If(*c)
                else:
                    r = c[0] - c[1] if d == z3.Z3_OP_BSUB else -c[0] if d == z3.Z3_OP_BNEG else ~c[0]
            elif d == z3.Z3_OP_CONCAT:
                parts, left = [], n
                for y in reversed(x.children()):
                    if left <= 0:
                        break
                    w = min(left, y.size())
                    parts.append(low(y, w))
                    left -= w
                r = z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
            else:
                r = z3.Extract(n - 1, 0, x)
            memo[k] = (r, x)
        return memo[k][0]

    done = {}

    def walk(x):
        k = x.get_id()
        if k not in done:
            c = [walk(y) for y in x.children()]
            if z3.is_app_of(x, z3.Z3_OP_EXTRACT):
                hi, lo = x.params()
                y = low(c[0], hi + 1)
                r = z3.Extract(hi, lo, y) if lo or y.size() > hi + 1 else y
            else:
                r = x.decl()(*c) if c else x
            done[k] = (r, x)
        return done[k][0]
    return z3.simplify(walk(e))


def discharge(path, stats, findings_ok):
    """-> list of (what, witness, finding) violations; finding is the id of a listed finding or None"""
    todo = []
    for o in path.obl:
        stats['obligations'] += 1
        if o is None:
            stats['trivial'] += 1
            continue
        todo.append(o)
    viol = []
    if not todo:
        return viol
    conc = path.concrete is not None
    if conc:
        sub = path.subst()
        for cond, what, finding, when in todo:
            c = z3.simplify(z3.substitute(cond, *sub))
            if z3.is_true(c):
                continue
            w = when is None or z3.is_true(z3.simplify(z3.substitute(when, *sub)))
            viol.append((what, path.concrete, finding if finding and w and finding in findings_ok else None))
        return viol

    def solve(neg, ms=20000, unknown=None):
        s = z3.SolverFor('QF_BV')
        s.set('timeout', ms)
        s.add(*path.pc)
        s.add(neg)
        t = time.time()
        r = s.check()
        stats['queries'] += 1
        stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            if unknown is not None:
                return unknown
            raise Inconclusive('solver unknown on an obligation: ' + s.reason_unknown())
        if r == z3.unsat:
            stats['unsat'] += 1
            return None
        stats['sat'] += 1
        m = s.model()
        wit = list(path.wit[:len(path.job.vars)])
        for v in path.job.vars:
            x = z3.simplify(m.eval(v.bv, model_completion=True)).as_long()
            if v.free and any(m[f] is not None for f, _ in v.free) and x in v.dom:
                wit[v.idx] = x
        return wit
    plain = []
    for cond, what, finding, when in todo:
        if finding and finding in findings_ok:
            continue
        plain.append((cond, what))
    # structural simplification first, then one query for the conjunction, then one per failing obligation
    def group(g):
        """decide the obligations g together; apart when that fails"""
        if len(viol) >= 3:
            return
        if len(g) == 1:
            c = canon(g[0][0])
            if z3.is_true(c):
                return
            g = [(c, g[0][1])]
            if os.environ.get('VP_DEBUG'):
                w = solve(z3.Not(g[0][0]), 20000, 0)
                if w == 0:
                    print('HARD', g[0][1], z3.simplify(g[0][0]).sexpr()[:3000], file=sys.stderr)
            w = solve(z3.Not(g[0][0]))
            if w is not None:
                viol.append((g[0][1], w, None))
            return
        if len(g) == len(plain):
            g = [(canon(c), x) for c, x in g]
            g = [(c, x) for c, x in g if not z3.is_true(c)]
            if not g:
                return
        w = solve(z3.Not(z3.And(*[c for c, _ in g])), 10000 if len(g) == len(plain) else 6000, 0)
        if w is not None:
            group(g[:len(g) // 2])
            group(g[len(g) // 2:])
    if plain:
        group(plain)
    for cond, what, finding, when in todo:
        if finding and finding in findings_ok:
            outside = z3.And(z3.Not(cond), z3.Not(when)) if when is not None else None
            if outside is not None:
                w = solve(outside)
                if w is not None:
                    viol.append((what, w, None))
            w = solve(z3.Not(cond))
            if w is not None:
                viol.append((what, w, finding))
    return viol


# ----------------------------------------------------------------------------- workers
class Engine:
    def __init__(self, build):
        def die_with_parent():
            import ctypes
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        self.p = subprocess.Popen([build.engine, build.bc], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, errors='replace', preexec_fn=die_with_parent)

    def run(self, job):
        """yields Path objects; returns stats via self.end"""
        self.p.stdin.write(job.text())
        self.p.stdin.flush()
        nodes = Nodes(job)
        self.end = None
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError('engine died on job ' + job.name)
            if l[0] == 'N':
                nd = json.loads(l[2:])
                nodes.n[nd[0]] = nd
            elif l[0] == 'P':
                yield Path(job, nodes, json.loads(l[2:]))
            elif l[0] == 'E':
                self.end = json.loads(l[2:])
                return
            else:
                raise RuntimeError('engine: ' + l)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def new_stats():
    return dict(paths=0, forks=0, insts=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, obligations=0, trivial=0, traces=0, functions=set(), inst_total=0, inst_cov=0, jobs=0, runs=0, reduced=0)


def do_job(build, eng, job, findings_ok, validate, deadline):
    r = do_job1(build, eng, job, findings_ok, validate, deadline)
    st, viols, errs, knowns, restart = r
    if viols or not errs or not getattr(st, 'cut', False) or not job.vars or time.time() > deadline - 20:
        return r
    # The exploration did not finish within its path/time limits (a change of the program may make it fork where it
    # used to compute symbolically).  Fall back to smaller sub-domains, explored completely, and say so.
    if os.environ.get('VP_DEBUG'):
        print('REDUCING', errs[:2], dict(paths=st['paths'], insts=st['insts'], q=st['queries'], solver=st['solver_s']), file=sys.stderr)
    full = [v.dom for v in job.vars]
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 31 + len(job.name))
    free = 5
    done = 0
    for k in range(12):
        if time.time() > deadline - 20 or done >= 3:
            break
        keep = set(rnd.sample(range(len(job.vars)), min(free, len(job.vars))))
        # keep the widest variables narrow, too
        for v, d in zip(job.vars, full):
            d = sorted(d)
            v.dom = frozenset(rnd.sample(d, min(len(d), 3 if v.w > 1 else 2)) if v.idx in keep else [rnd.choice(d)])
        job.reduced = True
        job.memo = {}
        try:
            s2, v2, e2, k2, restart = do_job1(build, eng, job, findings_ok, validate, deadline)
        finally:
            job.reduced = False
            for v, d in zip(job.vars, full):
                v.dom = d
        for key in st:
            if key == 'functions':
                st[key] |= s2[key]
            elif key not in ('inst_total', 'inst_cov', 'jobs'):
                st[key] += s2[key]
        knowns += k2
        if v2 or restart:
            return st, v2, [], knowns, restart
        if e2:
            free = max(1, free - 2)
            continue
        done += 1
    if done:
        st['reduced'] = 1
        return st, [], [], knowns, False
    return st, viols, errs, knowns, False


class Stats(dict):
    cut = False


def do_job1(build, eng, job, findings_ok, validate, deadline):
    st = Stats(new_stats())
    st['jobs'] = 1
    viols, errs, knowns = [], [], []
    seen_what = {}
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 7919 + sum(map(ord, job.name)))
    npaths = 0
    job.maxtime = max(1, min(job.maxtime, deadline - time.time()))
    seen = {}
    for path in eng.run(job):
        npaths += 1
        st['runs'] += len(path.runs)
        bad = False
        # default: no crash, no dependence on uninitialised memory
        crash = next((r for r in path.runs if r.status != 'exit'), None)
        if crash is not None and crash.status.startswith('limit'):
            # inconclusive, unless the real program violates the property on this input (it may hang)
            rec = dict(job=job.name, what='path ended by ' + crash.status, wit=list(path.wit[:len(job.vars)]), kind='oracle', finding=None)
            if not viols and replay(build, job, rec, findings_ok):
                viols.append(rec)
            else:
                errs.append('%s: path ended by %s' % (job.name, crash.status))
            continue
        vs = []
        try:
            for _ in cases(job, path, 'program fails: %s at %s' % (crash.status, crash.where) if crash is not None and not job.allow_crash else None):
                for r in path.runs:
                    for n in r.notes:
                        if n.startswith('uninit'):
                            path.fail('depends on uninitialised memory: ' + n)
                vs += discharge(path, st, findings_ok)
        except Inconclusive as e:
            errs.append('%s: %s' % (job.name, e)); st.cut = True
            if not vs:
                continue
        for what, wit, finding in vs:
            key = (re.sub(r'\d+', '#', what)[:60], finding)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 2:
                continue
            rec = dict(job=job.name, what=what, wit=wit, kind='oracle', finding=finding)
            # replay against the real program
            ok = replay(build, job, rec, findings_ok)
            if not ok:
                errs.append('%s: counterexample did not reproduce natively: %s' % (job.name, what))
                rec['unconfirmed'] = True
                save_debug(build, job, rec)
            elif finding:
                knowns.append(rec)
            else:
                viols.append(rec)
        if crash is None and validate > 0 and (npaths <= 2 or rnd.random() < validate):
            e = validate_path(build, job, path)
            st['traces'] += 1
            if e:
                # encoder and program disagree: let the oracle judge the real run
                rec = dict(job=job.name, what='(real run) ' + e, wit=list(path.wit[:len(job.vars)]), kind='oracle', finding=None)
                if replay(build, job, rec, findings_ok):
                    viols.append(rec)
                else:
                    errs.append('%s: engine/native mismatch: %s' % (job.name, e))
                    save_debug(build, job, rec)
        if len(viols) >= 4:
            break
    if len(viols) >= 4 and eng.end is None:
        return st, viols, errs, knowns, True
    e = eng.end
    st['paths'] = e['paths']
    for k in ('forks', 'insts', 'queries', 'sat', 'unsat', 'unknown', 'solver_s'):
        st[k] += e[k]
    st['functions'] = set(e['functions'])
    st['inst_total'], st['inst_cov'] = e['inst_total'], e['inst_covered']
    if e['incomplete']:
        errs.append('%s: exploration incomplete: %s' % (job.name, e['why']))
        st.cut |= e['why'].startswith(('path limit', 'time limit', 'solver unknown'))
    if e['paths'] < job.expect_paths and not viols and not getattr(job, 'reduced', False):
        errs.append('%s: only %d paths explored (vacuous?)' % (job.name, e['paths']))
    return st, viols, errs, knowns, False


def save_debug(build, job, rec):
    if os.environ.get('VP_DEBUG'):
        p = os.path.join('/tmp', 'vpdebug-%s' % re.sub(r'\W', '_', job.name))
        write_replay(p, job, rec)


def replay(build, job, rec, findings_ok):
    wit = rec['wit']
    for exe in (build.native, build.asan) + ((build.msan,) if 'uninit' in rec['what'] else ()):
        np, raw = native_path(build, job, wit, exe)
        if any(r.hang for r in raw) :
            rec['native'] = 'hang'
            return True
        if any(r.crashed for r in raw):
            rec['native'] = np.runs[[r.crashed for r in raw].index(True)].status
            if job.allow_crash:
                job.oracle(job, np)
                return bool([1 for v in discharge(np, new_stats(), findings_ok)])
            return True
        try:
            job.oracle(job, np)
            vs = discharge(np, new_stats(), findings_ok)
        except Inconclusive:
            continue
        if vs:
            rec['native'] = vs[0][0]
            if rec['finding'] is None and all(v[2] for v in vs):
                continue
            return True
    return False


def validate_path(build, job, path):
    wit = list(path.wit[:len(job.vars)])
    f = evalwit(path.nodes, path.wit, job)
    for r in path.runs:
        n = native_run(build, job, r.spec, wit)
        if n.crashed:
            return 'native run ended abnormally (%d) %s' % (n.rc, n.stderr[-200:])
        if n.rc != r.code:
            return 'exit status %d, encoding says %d' % (n.rc, r.code)
        names = {k for k in r._f if not k.startswith('<')}
        for k in names:
            if k not in n.files:
                return 'file %s not produced' % k
        for k in n.files:
            if k not in names and k not in r.spec.files:
                return 'unexpected file %s' % k
        for k in sorted(names) + ['<stdout>']:
            a = r.file(k)
            b = n.stdout if k == '<stdout>' else n.files[k]
            if len(a.items) != len(b):
                return '%s: length %d, encoding says %d' % (k, len(b), len(a.items))
            for i, x in enumerate(a.items):
                y = x if isinstance(x, int) else f(x[1])
                if y != b[i]:
                    return '%s: byte %d is %r, encoding says %r' % (k, i, b[i], y)
    return None


def write_replay(p, job, rec):
    """write a directory with the failing input, an explanation and a script that runs it"""
    os.makedirs(p, exist_ok=True)
    wit = rec['wit']
    sh = ['#!/bin/sh', '# replays the counterexample against the program built from /repo', 'cd "$(dirname "$0")" || exit 2',
          'CRASM=${CRASM:-/repo/src/crasm}']
    for i, r in enumerate(job.runs):
        d = os.path.join(p, 'run%d' % i)
        os.makedirs(d, exist_ok=True)
        for n, c in r.files.items():
            q = os.path.join(d, n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'wb').write(job.concrete(c, wit))
        sh.append("(cd run%d && $CRASM %s; echo exit status $?; for f in *.hex; do [ -f $f ] && echo == $f && cat $f; done)" % (i, ' '.join("'%s'" % job.concrete(a, wit).decode('latin1') for a in r.args[1:])))
    open(os.path.join(p, 'replay.sh'), 'w').write('\n'.join(sh) + '\n')
    os.chmod(os.path.join(p, 'replay.sh'), 0o755)
    open(os.path.join(p, 'README'), 'w').write('job %s\nviolated: %s\nobserved natively: %s\n' % (job.name, rec['what'], rec.get('native', '')))


REDUCED = []          # names of the jobs explored on sub-domains only


def _worker(args):
    wid, q, res, build, jobs, findings_ok, validate, deadline = args
    eng = Engine(build)
    try:
        while True:
            i = q.get()
            if i is None:
                break
            if time.time() > deadline:
                res.put((i, None, [], ['%s: time budget exhausted' % jobs[i].name], []))
                continue
            try:
                st, v, e, k, restart = do_job(build, eng, jobs[i], findings_ok, validate, deadline)
                if restart:
                    eng.p.kill(); eng = Engine(build)
                res.put((i, st, v, e, k))
            except Exception as ex:
                res.put((i, None, [], ['%s: %s' % (jobs[i].name, traceback.format_exc()[-1500:])], []))
                try:
                    eng.p.kill()
                except Exception:
                    pass
                eng = Engine(build)
    finally:
        eng.close()
    res.put(None)


def run_jobs(build, jobs, findings_ok=(), validate=0.02, budget=600, workers=8, stop_on_violation=True):
    ctx = multiprocessing.get_context('fork')
    q, res = ctx.Queue(), ctx.Queue()
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    deadline = time.time() + budget
    for i in order:
        q.put(i)
    n = min(workers, max(1, len(jobs)))
    for _ in range(n):
        q.put(None)
    ps = [ctx.Process(target=_worker, args=((w, q, res, build, jobs, findings_ok, validate, deadline),)) for w in range(n)]
    for p in ps:
        p.start()
    tot = new_stats()
    viols, errs, knowns, per = [], [], [], []
    live = n
    got = set()
    while live:
        try:
            r = res.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
            continue
        if r is None:
            live -= 1
            continue
        i, st, v, e, k = r
        got.add(i)
        if st:
            for key in tot:
                if key == 'functions':
                    tot[key] |= st[key]
                elif key == 'inst_total':
                    tot[key] = st[key]
                elif key == 'inst_cov':
                    tot[key] = max(tot[key], st[key])
                else:
                    tot[key] += st[key]
            per.append((jobs[i].name, st['paths'], st['insts'], st['obligations']))
            if st['reduced']:
                REDUCED.append(jobs[i].name)
            if os.environ.get('VP_PROF'):
                print('PROF %-34s paths %5d obl %6d solve %7.2f' % (jobs[i].name, st['paths'], st['obligations'], st['solver_s']))
        viols += [(jobs[i], x) for x in v]
        errs += e
        knowns += [(jobs[i], x) for x in k]
        if viols and stop_on_violation:
            for p in ps:
                p.terminate()
            break
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    if not (viols and stop_on_violation):
        for i in range(len(jobs)):
            if i not in got:
                errs.append('%s: no result (worker died)' % jobs[i].name)
    return tot, viols, errs, knowns, per
