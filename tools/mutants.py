"""Finds gaps of the checks: makes many small changes of the sources and looks which of the checks' own programs, with random
values for their symbolic parts, behave differently - and whether the oracles object.  A development tool: no check uses it.
   python3-vt tools/mutants.py OUT.json [file.c ...]"""
import sys, os, re, random, json, subprocess, shutil, time, multiprocessing, tempfile, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/../lib', HERE + '/../checks']
import sx, importlib

SRC = os.path.join(sx.REPO, 'src')
W = tempfile.mkdtemp(prefix='mut.', dir='/dev/shm')
SEEDS = int(os.environ.get('WITS', '2'))
CHECKS = os.environ.get('CHECKS', ' '.join('c%02d' % k for k in range(1, 25))).split()


def mutants(files):
    out = []
    for f in files:
        text = open(os.path.join(SRC, f)).read()
        # blank out comments, preprocessor lines
        code = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), text, flags=re.S)
        code = re.sub(r'^#.*$', lambda m: ' ' * len(m.group()), code, flags=re.M)
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\\n])*"|\'(\\.|[^\'\\\n])*\'', code)]
        masked = list(code)
        for a, b in strs:
            for k in range(a, b):
                masked[k] = '\1'
        masked = ''.join(masked)
        add = lambda a, b, new: out.append((f, a, b, new)) if text[a:b] != new else None
        for m in re.finditer(r'(?<![<>=!+\-*/&|^])(<=|>=|==|!=|<|>)(?![<>=])', masked):
            o = m.group(1)
            for n in {'<': ['<=', '>='], '>': ['>=', '<='], '<=': ['<', '>'], '>=': ['>', '<'], '==': ['!=', '<='], '!=': ['==', '>']}[o]:
                add(m.start(), m.end(), n)
        for m in re.finditer(r'&&|\|\|', masked):
            add(m.start(), m.end(), '||' if m.group() == '&&' else '&&')
        for m in re.finditer(r'\+\+|--', masked):
            add(m.start(), m.end(), '--' if m.group() == '++' else '++')
        for m in re.finditer(r'(?<=[\w\)\]] )([+\-*/&|^]|<<|>>)(?= [\w\(])', masked):
            for n in {'+': '-', '-': '+', '*': '+', '/': '*', '&': '|', '|': '&', '^': '|', '<<': '>>', '>>': '<<'}[m.group(1)]:
                pass
            add(m.start(), m.end(), {'+': '-', '-': '+', '*': '+', '/': '*', '&': '|', '|': '&', '^': '|', '<<': '>>', '>>': '<<'}[m.group(1)])
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])', masked):
            s = m.group(1)
            v = int(s, 16) if s[:2] in ('0x', '0X') else int(s, 10)
            for n in (v + 1, v - 1):
                if n >= 0:
                    add(m.start(), m.end(), hex(n) if s[:2] in ('0x', '0X') else str(n))
        for m in re.finditer(r'!(?!=)', masked):
            add(m.start(), m.end(), '')
        for m in re.finditer(r'\b(if|while) \(', masked):
            add(m.end(), m.end(), '!0 || ')
            add(m.end(), m.end(), '0 && ')
        for m in re.finditer(r'^[ \t]*(?!(?:register|int|char|struct|unsigned|long|static|extern|FILE|short|byte|jmp_buf|va_list|void|return|case|default|union|typedef)\b)[^\n;{}]*;[ \t]*$', masked, re.M):
            if m.group().strip(' \t;'):
                add(m.start(), m.end(), ';')
        for m in re.finditer(r'\bTRUE\b|\bFALSE\b', masked):
            add(m.start(), m.end(), 'FALSE' if m.group() == 'TRUE' else 'TRUE')
        for m in re.finditer(r'[&|]= ?~? ?', masked):
            o = m.group().replace(' ', '')
            add(m.start(), m.end(), {'&=~': '|= ', '|=': '&= ~', '&=': '|= ~', '|=~': '&= '}[o])
        for m in re.finditer(r' ?\| ?[A-Z_]{3,}[A-Z0-9_]*|[A-Z_]{3,}[A-Z0-9_]* ?\| ?', masked):
            add(m.start(), m.end(), '')
        for m in re.finditer(r'\breturn (?!TRUE|FALSE)(\w+);', masked):
            add(m.start(1), m.end(1), '0' if m.group(1) != '0' else '1')
        for a, b in strs:
            s = text[a:b]
            if s[0] == "'" and len(s) == 3:
                add(a, b, "'%c'" % (ord(s[1]) ^ 1) if s[1] not in "&'" else "'x'")
            elif '_' in s and '?' in s:
                for k, c in enumerate(s):
                    if c == '_':
                        add(a, b, s[:k] + s[k + 1:])
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x); res.append(x)
    return res


def describe(x):
    f, a, b, new = x
    t = open(os.path.join(SRC, f)).read()
    ls, le = t.rfind('\n', 0, a) + 1, t.find('\n', b)
    return '%s:%d: %s  -->  %s' % (f, t.count('\n', 0, a) + 1, t[ls:le].strip(), (t[ls:a] + new + t[b:le]).strip())


JOBS = []      # (check, job, wit)


def load():
    rnd = random.Random(int(os.environ.get('SEED', '1')))
    for c in CHECKS:
        for j in importlib.import_module(c).jobs('quick'):
            if any(r.faults for r in j.runs):
                continue
            for q in range(SEEDS):
                mode, u = rnd.randrange(5), rnd.random()
                pick = lambda v: (lambda d: d[int(u * len(d))] if mode in (0, 1) else d[0] if mode == 2 and rnd.random() < .8 else d[-1] if mode == 3 and rnd.random() < .8 else rnd.choice(d))(sorted(v.dom))
                JOBS.append((c, j, [pick(v) for v in j.vars]))
    rnd.shuffle(JOBS)


def lim():
    resource.setrlimit(resource.RLIMIT_CPU, (3, 4))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 23, 1 << 23))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_NOFILE, (24, 24))
    resource.setrlimit(resource.RLIMIT_AS, (1 << 33, 1 << 33))


def execute(exe, job, run, wit, d):
    for n, c in run.files.items():
        p = os.path.join(d, n)
        if '/' in n:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(job.concrete(c, wit))
    so = d + '.out'
    with open(so, 'wb') as f:
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir(d)
                os.dup2(f.fileno(), 1)
                dn = os.open('/dev/null', os.O_RDWR); os.dup2(dn, 2); os.dup2(dn, 0)
                lim()
                os.execv(exe, [exe] + [job.concrete(a, wit).decode('latin1') for a in run.args[1:]])
            finally:
                os._exit(127)
        rc = os.waitpid(pid, 0)[1]
    out = [rc, open(so, 'rb').read()]
    for root, _, fs in os.walk(d):
        for n in sorted(fs):
            p = os.path.join(root, n)
            q = os.path.relpath(p, d)
            if q not in run.files:
                out.append((q, open(p, 'rb').read()))
            os.unlink(p)
    for q in os.listdir(d):
        shutil.rmtree(os.path.join(d, q))
    return out


def results(exe, k, d):
    c, j, wit = JOBS[k]
    return hash(repr([execute(exe, j, r, wit, d) for r in j.runs]))


def base_one(k):
    d = '%s/b%d' % (W, os.getpid()); os.makedirs(d, exist_ok=True)
    t = time.time()
    h = results(W + '/orig', k, d)
    return h, time.time() - t


class B: pass


def judge(exe, k, d):
    c, j, wit = JOBS[k]
    b = B(); b.dir, b.native, b.faulty = d, exe, exe
    import copy
    p, raw = sx.native_path(b, j, wit, exe)
    if any(r.crashed for r in raw):
        return 'crash'
    try:
        j.oracle(j, p)
        vs = sx.discharge(p, sx.new_stats(), ())
    except sx.Inconclusive:
        return None
    except sx.CaseSplit:
        return None
    except Exception as e:
        return 'exception %r' % e
    return vs[0][0] if vs else None


def one(arg):
    i, x, base, order = arg
    d = '%s/m%d' % (W, os.getpid()); os.makedirs(d, exist_ok=True); os.makedirs(d + 'j', exist_ok=True)
    f, a, b, new = x
    t = open(os.path.join(SRC, f)).read()
    m = '%s/%d_%s' % (W, os.getpid(), f)
    open(m, 'w').write(t[:a] + new + t[b:])
    exe = '%s/x%d' % (W, os.getpid())
    objs = [W + '/' + o + '.o' for o in os.listdir(SRC) if o.endswith('.c') and o != f]
    if subprocess.run(['gcc', '-O', '-w', '-I', SRC, '-o', exe, m] + objs + ['-lm'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        return i, 'nobuild', []
    if open(exe, 'rb').read() == open(W + '/orig', 'rb').read():
        return i, 'same', []
    diffs, tried, t0 = [], 0, time.time()
    for k in order:
        if time.time() - t0 > 120:
            break
        if results(exe, k, d) != base[k]:
            diffs.append(k)
            if tried < 40:
                tried += 1
                v = judge(exe, k, d + 'j')
                if v:
                    return i, 'caught', [JOBS[k][0], JOBS[k][1].name, v]
    return i, 'unjudged' if diffs else 'invisible', sorted({'%s/%s' % (JOBS[k][0], JOBS[k][1].name) for k in diffs})[:30]


def main():
    os.environ['PYTHONHASHSEED'] = '0'
    out = sys.argv[1]
    files = sys.argv[2:] or sorted(f for f in os.listdir(SRC) if f.endswith('.c'))
    load()
    for o in os.listdir(SRC):
        if o.endswith('.c'):
            subprocess.check_call(['gcc', '-O', '-w', '-c', '-I', SRC, '-o', W + '/' + o + '.o', os.path.join(SRC, o)])
    subprocess.check_call(['gcc', '-o', W + '/orig'] + [W + '/' + o for o in os.listdir(W) if o.endswith('.o')] + ['-lm'])
    N = int(os.environ.get('N', '7'))
    with multiprocessing.Pool(N) as pool:
        r = pool.map(base_one, range(len(JOBS)), chunksize=20)
    base = [h for h, t in r]
    fast = [k for k, (h, t) in enumerate(r) if t < float(os.environ.get('SLOW', '0.05'))]
    print('%d job instances, %d fast, %.1f s' % (len(JOBS), len(fast), sum(t for h, t in r)), flush=True)
    ms = mutants(files)
    sel = os.environ.get('MUT')
    if sel:
        ms = [x for x in ms if re.search(sel, describe(x))]
    cap = int(os.environ.get('CAP', '0'))
    if cap and len(ms) > cap:
        ms = random.Random(3).sample(ms, cap)
    print(len(ms), 'mutants', flush=True)
    res = []
    with multiprocessing.Pool(N) as pool:
        for i, s, l in pool.imap_unordered(one, [(i, x, base, fast) for i, x in enumerate(ms)], chunksize=1):
            res.append(dict(i=i, status=s, mutant=describe(ms[i]), info=l))
            if s in ('unjudged', 'invisible'):
                print(s, res[-1]['mutant'], l[:4], flush=True)
    json.dump(res, open(out, 'w'), indent=0)
    import collections
    print(collections.Counter(x['status'] for x in res))


if __name__ == '__main__':
    try:
        main()
    finally:
        shutil.rmtree(W, ignore_errors=True)
