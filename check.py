#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py <property> <quick|thorough>

 1. compiles the harness of the property together with the code of /repo's working tree to LLVM bitcode,
 2. executes every entry point symbolically (engine/symx), the solver deciding every branch and every assertion,
 3. replays each counterexample natively (own build, sanitizers on) and reports only what reproduces,
 4. replays a sample of the models of passing paths natively as well, as a cross-check of the encoding,
 5. writes evidence/<property>.json.

Exit: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 no answer (nothing could be explored).
"""
import concurrent.futures as cf
import fcntl
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('OBAKE_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS, ALL_SRC  # noqa: E402

T0 = time.time()
NCPU = os.cpu_count() or 8


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode(errors='replace') + '\n[timeout]'


def note(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def build_engine():
    os.makedirs(HERE + '/engine/build', exist_ok=True)
    with open(HERE + '/engine/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(['make', '-s', '-j4', '-C', HERE + '/engine'])
    if rc:
        print(out)
        sys.exit(2)


def gen_config(work):
    d = work + '/inc/obake'
    os.makedirs(d, exist_ok=True)
    out = []
    for l in open(REPO + '/config.hpp.in'):
        if l.lstrip().startswith('@') and l.rstrip().endswith('@'):
            l = '\n'
        for k, v in (('@obake_VERSION@', '1'), ('@obake_VERSION_MAJOR@', '0'), ('@obake_VERSION_MINOR@', '0'),
                     ('@obake_VERSION_PATCH@', '0')):
            l = l.replace(k, v)
        out.append(l)
    open(d + '/config.hpp', 'w').write(''.join(out))


class Prop:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.c = PROPS[pid]
        self.work = '%s/build/%s-%s' % (HERE, pid, tier)
        os.makedirs(self.work, exist_ok=True)
        gen_config(self.work)
        self.units = [(h if h.startswith('/') else HERE + '/harness/' + h) for h in self.c['harness']]
        self.srcs = ALL_SRC if self.c.get('srcs', 'all') == 'all' else self.c['srcs']
        self.defs = ['-D' + d for d in self.c.get('defs', [])]
        if tier == 'thorough':
            self.defs.append('-DSX_THOROUGH')

    # ------------------------------------------------------------ builds
    def symflags(self):
        f = ['-std=c++20', '-O1', '-DNDEBUG', '-DSX_SYMBOLIC', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-vectorize',
             '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-w', '-emit-llvm', '-c']
        if self.c.get('ub'):
            f += ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return',
                  '-fsanitize-trap=all']
        return f + self.defs + self.c.get('flags', []) + [
            '-I' + HERE + '/harness', '-I' + HERE + '/shim/sym', '-I' + HERE + '/shim/common',
            '-I' + self.work + '/inc', '-I' + REPO + '/include', '-I' + REPO]

    def build_sym(self):
        """-> list of (unit name, bitcode) that could be built, list of failures"""
        jobs = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s in [HERE + '/harness/stub.cpp'] + [REPO + '/src/' + x for x in self.srcs]:
                o = self.work + '/s_' + os.path.basename(s) + '.bc'
                jobs[s] = (o, ex.submit(sh, ['clang++-18'] + self.symflags() + [s, '-o', o]))
            for s in self.units:
                o = self.work + '/h_' + os.path.basename(s) + '.bc'
                jobs[s] = (o, ex.submit(sh, ['clang++-18'] + self.symflags() + [s, '-o', o]))
        fails, lib, units = [], [], []
        for s, (o, f) in jobs.items():
            rc, out = f.result()
            if rc:
                fails.append((s, out[-3000:]))
            elif s in self.units:
                units.append((s, o))
            else:
                lib.append(o)
        res = []
        for s, o in units:
            l = o[:-3] + '.linked.bc'
            rc, out = sh(['llvm-link-18', o] + lib + ['-o', l])
            if rc:
                fails.append((s, out[-2000:]))
            else:
                res.append((s, l))
        return res, fails

    def build_native(self, unit, shim):
        """shim False: the real Boost/TBB/fmt; True: the stand-ins used symbolically."""
        tag = 'shim' if shim else 'real'
        exe = '%s/n_%s_%s' % (self.work, tag, os.path.basename(unit))
        if os.path.exists(exe):
            os.unlink(exe)
        f = ['-std=c++20', '-O1', '-g0', '-w', '-DNDEBUG', '-DSX_NATIVE', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function'] + self.defs + self.c.get('flags', [])
        f += ['-I' + HERE + '/harness']
        if shim:
            f += ['-DSX_SYMBOLIC', '-I' + HERE + '/shim/sym']
        f += ['-I' + HERE + '/shim/common', '-I' + self.work + '/inc', '-I' + REPO + '/include', '-I' + REPO]
        objs, jobs = [], []
        san = ['-fsanitize=address,undefined']
        own = [HERE + '/harness/replay.cpp']
        if self.c.get('threads'):
            # Own run time for the hooks of -fsanitize=thread: deterministic schedules, race detection.
            f = [x for x in f if not x.startswith(('-fsanitize', '-fno-sanitize'))] + ['-DSX_NATIVE_THREADS']
            san = ['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=__cxa_guard_acquire,'
                   '--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort']
            own.append(HERE + '/harness/threads_rt.cpp')
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s in [unit, HERE + '/harness/stub.cpp'] + own + [REPO + '/src/' + x for x in list(self.srcs) + self.c.get('native_srcs', [])]:
                o = '%s/o_%s_%s_%s.o' % (self.work, tag, os.path.basename(unit), os.path.basename(s))
                objs.append(o)
                hook = ['-fsanitize=thread'] if self.c.get('threads') and s not in own else []
                jobs.append(ex.submit(sh, ['clang++-18'] + f + hook + ['-c', s, '-o', o], 600))
        for j in jobs:
            rc, out = j.result()
            if rc:
                return None, out[-2000:]
        rc, out = sh(['clang++-18'] + san + ['-rdynamic', '-o', exe] + objs
                     + ['-ltbb', '-lfmt', '-lboost_serialization', '-lpthread', '-ldl'])
        for o in objs:
            os.unlink(o)
        return (exe, '') if not rc else (None, out[-2000:])


def run_entry(bc, entry, out, tlimit, jobs, qtime):
    cmd = [HERE + '/engine/build/symx', bc, '--entry=' + entry, '--out=' + out, '--jobs=%d' % jobs,
           '--time=%d' % tlimit, '--qtime=%d' % qtime]
    rc, log = sh(cmd, tlimit + 120)
    recs = []
    try:
        for l in open(out):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    except OSError:
        pass
    return rc, log[-2000:], recs


def write_inputs(path, entry, inputs):
    with open(path, 'w') as f:
        f.write(entry + '\n')
        for n, bits, v in inputs:
            f.write('%d %s %s\n' % (bits, v, n))


def run_native(exe, path, hang=False):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=4000', UBSAN_OPTIONS='print_stacktrace=0')
    return sh([exe, path], 30 if hang else 120, env)


def main():
    if len(sys.argv) != 3 or sys.argv[1] not in PROPS or sys.argv[2] not in ('quick', 'thorough'):
        print('usage: check.py <property> <quick|thorough>')
        sys.exit(2)
    pid, tier = sys.argv[1:]
    pr = Prop(pid, tier)
    c = pr.c
    budget = c.get('budget', {}).get(tier, 420 if tier == 'quick' else 3600)
    qtime = c.get('qtime', {}).get(tier, 20 if tier == 'quick' else 120)
    with cf.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(build_engine)
        built, fails = pr.build_sym()
        fe.result()
    for s, out in fails:
        print('BUILD FAILED %s\n%s' % (s, out))
    if not built:
        sys.exit(2)
    note('built', [os.path.basename(s) for s, _ in built])

    work = []
    for s, bc in built:
        rc, out = sh([HERE + '/engine/build/symx', bc, '--list'])
        for e in out.split():
            if e.startswith('harness_'):
                work.append((s, bc, e))
    only = os.environ.get('SX_ONLY')
    if only:
        work = [w for w in work if only in w[2]]
    # Native executables are built while the solver runs.
    deadline = T0 + budget
    heavy = set(c.get('heavy', []))
    work.sort(key=lambda w: (w[2] not in heavy, w[2]))
    results = []
    nat = {}
    par = c.get('par', 8)
    with cf.ThreadPoolExecutor(par) as ex, cf.ThreadPoolExecutor(2) as exn:
        futs = []
        for i, (s, bc, e) in enumerate(work):
            def go(s=s, bc=bc, e=e, i=i):
                left = deadline - time.time()
                if left < 2:
                    return s, e, None, 'no time left', []
                return (s, e) + run_entry(bc, e, '%s/%s.jsonl' % (pr.work, e), int(left), c.get('jobs', 4), qtime)
            futs.append(ex.submit(go))
        for s in dict.fromkeys(w[0] for w in work):
            nat[s] = exn.submit(pr.build_native, s, c.get('native') == 'shim')
        for f in futs:
            results.append(f.result())
    note('explored', len(results), 'entry points')

    tot = {}
    funcs, viols, samples, problems, bounds, entries = set(), [], [], [], [], []
    for s, e, rc, log, recs in results:
        summ = [r for r in recs if r['kind'] == 'summary']
        if not summ:
            problems.append('%s: no result (%s)' % (e, (log or '')[-200:].strip()))
            continue
        sm = summ[0]
        for k, v in sm.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        funcs |= set(sm['functions'])
        complete = not (sm['unsupported'] or sm['stopped'] or sm['lost'] or sm['unknown_branches'])
        entries.append({'entry': e, 'paths': sm['paths'], 'checks': sm['checks'], 'checks_by_solver': sm['checks_symbolic'],
                        'wall_s': round(sm['wall'], 2), 'complete': complete,
                        'reached': sorted(r['id'] for r in recs if r['kind'] == 'reach')})
        if not entries[-1]['reached'] and not sm['violations']:
            problems.append('%s: the reachability witness was not reached' % e)
        for r in recs:
            if r['kind'] == 'violation':
                viols.append((s, e, r))
            elif r['kind'] == 'sample':
                samples.append((s, e, r))
            elif r['kind'] == 'unsupported':
                problems.append('%s: not encodable: %s at %s' % (e, r['msg'], r.get('where', '')[:200]))
            elif r['kind'] == 'unknown':
                problems.append('%s: no verdict within the solver budget: %s' % (e, r['id']))
        if not complete and sm['stopped']:
            problems.append('%s: stopped at the time budget, %d paths unfinished' % (e, sm['stopped']))
        if sm['lost']:
            problems.append('%s: %d explorer processes ended abnormally' % (e, sm['lost']))

    # ---------------------------------------------------------------- replays
    known = []
    try:
        known = [k for k in json.load(open(HERE + '/known_findings.json'))['findings'] if k['property'] == pid]
    except (OSError, ValueError, KeyError):
        pass
    reported, unconfirmed, knownhit = [], [], []
    rdir = HERE + '/build/replay'
    os.makedirs(rdir, exist_ok=True)
    shimexe = {}

    def native(s):
        exe, err = nat[s].result()
        return exe, err

    seen = {}
    for s, e, r in viols:
        key = (e, r['id'])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 3:
            continue
        path = '%s/%s_%s_%d.txt' % (rdir, pid, e, len(reported) + len(unconfirmed) + len(knownhit))
        write_inputs(path, e, r['inputs'])
        ok, how = False, ''
        # A path that did not end in the symbolic execution is a violation if the real code does not end either.
        hang = r['id'].startswith('hang:')
        fine = (0, 3, 4, 5) if hang else (0, 3, 4, 5, -9)
        exe, err = native(s)
        if exe:
            rc, out = run_native(exe, path, hang)
            ok, how = (rc not in fine), out
        else:
            problems.append('native build failed: ' + err[-400:])
        if not ok and c.get('native') != 'shim':
            if s not in shimexe:
                shimexe[s] = pr.build_native(s, True)
            exe2 = shimexe[s][0]
            if exe2:
                rc, out = run_native(exe2, path, hang)
                ok, how = (rc not in fine), out
        if not ok:
            unconfirmed.append('%s: %s (counterexample did not reproduce natively)' % (e, r['id']))
            note('unconfirmed', e, r['id'], how[-600:])
            continue
        kf = [k for k in known if k['entry'] == e and k['check'] == r['id']]
        with open(path, 'a') as f:
            f.write('')
        if kf:
            knownhit.append(kf[0])
            continue
        with open(path + '.log', 'w') as f:
            f.write('property %s, entry %s\nassertion: %s\nwhere: %s\nbuild: %s\n\n%s' % (pid, e, r['id'], r.get('where', ''), exe, how))
        reported.append((path, e, r['id'], how))

    # ---------------------------------------------------------------- cross-check of the encoding
    validated, mism = 0, []
    per = {}
    nmax = c.get('samples', {}).get(tier, 60 if tier == 'quick' else 300)
    jobs = []
    for s, e, r in samples:
        per[e] = per.get(e, 0) + 1
        if len(jobs) >= nmax or per[e] > 6:
            continue
        path = '%s/sample_%d.txt' % (pr.work, len(jobs))
        write_inputs(path, e, r['inputs'])
        jobs.append((s, e, r, path))
    if c.get('native') == 'none':
        jobs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = []
        for s, e, r, path in jobs:
            exe, err = native(s)
            if not exe:
                problems.append('native build failed: ' + err[-400:])
                break
            fs.append((s, e, r, path, ex.submit(run_native, exe, path)))
        for s, e, r, path, f in fs:
            rc, out = f.result()
            obs = [l.split(' ', 2) for l in out.splitlines() if l.startswith('OBS ')]
            want = [['OBS', a, b] for a, b in r['obs']]
            good = rc == 0 and ('CHECKS %d ' % r['checks']) in out and obs == want
            if good:
                validated += 1
            elif 'CHECK-FAILED' in out or 'ERROR: AddressSanitizer' in out or 'runtime error:' in out or 'UNCAUGHT' in out:
                keep = '%s/%s_%s_native%d.txt' % (rdir, pid, e, validated)
                os.replace(path, keep)
                cid = ([l[13:] for l in out.splitlines() if l.startswith('CHECK-FAILED')] + ['crash'])[0]
                if not any(k['entry'] == e and k['check'] == cid for k in known):
                    with open(keep + '.log', 'w') as lf:
                        lf.write(out)
                    reported.append((keep, e, cid, out))
            else:
                mism.append('%s: native run of a model differs (rc %s): %s' % (e, rc, out[-300:]))
                note('MISMATCH', mism[-1])

    # ---------------------------------------------------------------- evidence
    try:
        sz = sum(1 for _ in open('/dev/null'))
    except OSError:
        pass
    cov = {
        'states': int(tot.get('paths', 0)),
        'transitions': int(tot.get('insts', 0)),
        'traces_validated_against_impl': validated,
        'samples': [{'entry': e, 'inputs': {('%d:%s' % (i, n)): v for i, (n, b, v) in enumerate(r['inputs'][:40])}} for s, e, r in samples[:4]],
        'rule': 'states = symbolic paths explored to their end; transitions = IR instructions executed symbolically',
        'assertions_evaluated': int(tot.get('checks', 0)),
        'assertions_decided_by_solver': int(tot.get('checks_unsat', 0)) + int(tot.get('checks_failed', 0)),
        'assertions_folded_to_constants': int(tot.get('checks_const', 0)),
        'queries': {'total': int(tot.get('queries', 0)), 'sat': int(tot.get('sat', 0)), 'unsat': int(tot.get('unsat', 0)),
                    'unknown': int(tot.get('unk', 0)), 'cache_hits': int(tot.get('cache_hits', 0)),
                    'integer_encoded': int(tot.get('int_queries', 0))},
        'solver_s': round(tot.get('solver_s', 0), 2),
        'functions_encoded': sorted(funcs)[:400],
        'functions_encoded_count': len(funcs),
        'bounds': c['bounds'],
        'outside': c.get('outside', ''),
        'entries': entries,
        'complete_within_bounds': not problems and not unconfirmed,
        'limitations_of_this_run': sorted(set(problems + unconfirmed + mism))[:60],
        'encoding': 'LLVM 18 bitcode of the working tree (clang -O1), regenerated on this run',
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': cov, 'assumptions': c['assumptions'], 'wall_s': round(time.time() - T0, 2),
          'violations': len(reported)}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in sorted(set(problems + unconfirmed + mism))[:20]:
        print('LIMITATION', p)
    note('paths', cov['states'], 'assertions', cov['assertions_evaluated'], 'queries', cov['queries']['total'],
         'solver %.1fs' % cov['solver_s'], 'validated', validated)
    done = set()
    for k in knownhit:
        if k['what'] not in done:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            done.add(k['what'])
    if reported:
        for path, e, cid, how in reported[:10]:
            print('violated: %s [%s]' % (cid, e))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if not entries or not cov['assertions_evaluated']:
        print('nothing was explored')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
