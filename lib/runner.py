"""Command line of one check:  runner.py <ID> [quick|thorough]"""
import os, sys, json, time, importlib, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sx

VERIF = sx.VERIF


def known_for(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    r = {}
    for e in json.load(open(p)):
        if e.get('property') == pid and e.get('status') == 'open':
            r[e['id']] = e['what']
    return r


def sample(job, rec=None, path=None):
    r = job.runs[0]
    name = next((n for n in ('a.asm',) if n in r.files), next(iter(r.files)))
    t = r.files[name]
    out = []
    for ch in t[:600]:
        c = ord(ch)
        if c >= sx.PUA:
            v = job.vars[c - sx.PUA]
            out.append('<%s%d>' % ({1: 'bit', 3: 'oct', 4: 'hex', 8: 'char'}[v.w], v.idx))
        else:
            out.append(ch)
    return {'job': job.name, 'program': ''.join(out)[:900], 'symbolic_variables': len(job.vars), 'symbolic_bits': sum(v.w for v in job.vars)}


def main():
    t0 = time.time()
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(pid.lower())
    known = known_for(pid)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 3000)
    try:
        build = sx.Build()
    except RuntimeError as e:
        print('error: ' + str(e))
        return 2
    try:
        jobs = mod.jobs(tier)
        if only:
            jobs = [j for j in jobs if re.search(only, j.name)]
        tb = time.time() - t0
        tot, viols, errs, knowns, per = sx.run_jobs(build, jobs, set(known), validate=getattr(mod, 'VALIDATE', 0.02), budget=budget, stop_on_violation=not os.environ.get('VP_ALL'))
        rdir = os.path.join(VERIF, 'replays', pid)
        shutil.rmtree(rdir, ignore_errors=True)
        lines = []
        for i, (job, rec) in enumerate(viols[:5]):
            p = os.path.join(rdir, 'v%d' % i)
            sx.write_replay(p, job, rec)
            lines.append((p, job, rec))
        kseen = {}
        for job, rec in knowns:
            kseen.setdefault(rec['finding'], (job, rec))
        for f, w in known.items():
            if f in kseen:
                print('KNOWN-FINDING: property=%s %s (%s)' % (pid, f, w))
        samples = [sample(j) for j in jobs[:3]]
        names = sorted(tot['functions'])
        cov = {
            'states': tot['paths'], 'transitions': tot['insts'], 'traces_validated_against_impl': tot['traces'], 'samples': samples,
            'states_are': 'complete symbolic paths of the program explored to exit (each stands for every input satisfying its path condition)',
            'transitions_are': 'LLVM instructions of the program executed symbolically',
            'jobs': tot['jobs'], 'program_runs': tot['runs'], 'forks': tot['forks'],
            'functions_encoded': names, 'instructions_in_program': tot['inst_total'], 'instructions_covered_max_per_job': tot['inst_cov'],
            'obligations': tot['obligations'], 'obligations_discharged_by_simplification': tot['trivial'],
            'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'],
            'solver_seconds': round(tot['solver_s'], 2),
            'bounds': getattr(mod, 'BOUNDS', ''), 'outside_bounds': getattr(mod, 'OUTSIDE', ''),
            'jobs_explored_on_reduced_domains': tot['reduced'], 'reduced_jobs': sx.REDUCED[:40],
            'known_findings_seen': sorted(kseen), 'exhaustive': False,
            'inconclusive': errs[:20],
            'per_job': [{'job': n, 'paths': p, 'instructions': i, 'obligations': o} for n, p, i, o in per][:60],
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'), 'coverage': cov,
              'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
        for p, job, rec in lines:
            print('  %s: %s [native: %s]' % (job.name, rec['what'], str(rec.get('native', ''))[:200]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        for e in errs[:10]:
            print('inconclusive: ' + e)
        print('%s %s: %d jobs, %d paths, %d obligations (%d trivial), %d queries (%.1f s), %.0f M instructions, %d traces validated, build %.1f s, wall %.1f s' % (
            pid, tier, tot['jobs'], tot['paths'], tot['obligations'], tot['trivial'], tot['queries'], tot['solver_s'], tot['insts'] / 1e6, tot['traces'], tb, time.time() - t0))
        if sx.REDUCED:
            print('explored on sub-domains only: %s' % '; '.join(sx.REDUCED[:12]))
        if viols:
            return 1
        return 2 if errs else 0
    finally:
        build.cleanup()


COMMON = [
    'clang-18 translates the sources at -O0 faithfully; the engine\'s semantics of LLVM IR, its mini C library and z3 are trusted (spot-checked against the native binary on every run: traces_validated_against_impl)',
    'only inputs of the stated templates, with every value of their symbolic parts, are covered',
]

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
