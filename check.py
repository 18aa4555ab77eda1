#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the real code.

  check.py C01 [--thorough] [--keep] [--only N]     run the check
  check.py --replay FILE                            run a stored counterexample natively

Exit 0: held on everything explored.  Exit 1: a counterexample, reproduced natively, is printed as
"VIOLATION property=<id> replay=<path>".  Exit 2: no verdict (tool limits, or a counterexample that
does not reproduce).
"""
import glob, json, os, shutil, subprocess, sys, time, threading, queue, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NTC_REPO', '/repo')
ENGINE = os.path.join(VERIF, 'engine', 'build', 'ntcsym')
sys.path.insert(0, VERIF)
from checks import CHECKS, COMMON_ASSUMPTIONS   # noqa: E402

CORE = ['netcode/detail/decoder.cc', 'netcode/detail/encoder.cc', 'netcode/detail/invert_matrix.cc']
CAPI = ['netcode/c/data.cc', 'netcode/c/decoder.cc', 'netcode/c/encoder.cc', 'netcode/c/packet.cc']
INC = ['-I' + REPO, '-I' + VERIF + '/rt', '-I' + VERIF + '/harness']
BC_FLAGS = ['-std=c++11', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
            '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c', '-w'] + INC
NAT = ['-std=c++11', '-DHARNESS=harness', '-w'] + INC


def log(*a):
    print(*a, flush=True)


class Err(Exception):
    pass


def sources(extra):
    """The repository's translation units: all of netcode/detail, and the C interface on demand."""
    core = sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + '/netcode/detail/*.cc'))
    capi = sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + '/netcode/c/*.cc'))
    return core + (capi if extra else [])


def run_all(cmds, what):
    ps = []
    for c in cmds:
        ps.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise Err('%s failed: %s\n%s' % (what, ' '.join(c), out.decode(errors='replace')[-3000:]))


def defs(variant):
    return [] if variant == 'assert' else ['-DNDEBUG']


def tag_of(harness, variant, capi, flags):
    return '-'.join([harness, variant, 'c' if capi else 'cxx'] + [''.join(ch for ch in f if ch.isalnum()) for f in flags])


def build_bc(scratch, harness, variant, capi, flags):
    out = '%s/%s.bc' % (scratch, tag_of(harness, variant, capi, flags))
    cmds, objs = [], []
    srcs = [VERIF + '/rt/rt.cc', VERIF + '/rt/libc.cc', VERIF + '/rt/gf_model.cc', '%s/harness/%s.cc' % (VERIF, harness)]
    if harness == 'dump':
        srcs.append(VERIF + '/rt/streams.cc')
    srcs += [os.path.join(REPO, s) for s in sources(capi)]
    for s in srcs:
        o = '%s.%s.o.bc' % (out, s.strip('/').replace('/', '_'))
        objs.append(o)
        cmds.append(['clang++-18'] + BC_FLAGS + defs(variant) + flags + [s, '-o', o])
    run_all(cmds, 'bitcode')
    run_all([['llvm-link-18'] + objs + ['-o', out + '.link']], 'llvm-link')
    run_all([['opt-18', '-passes=loweratomic', out + '.link', '-o', out]], 'opt')
    return out


NATIVE_KINDS = {
    # the library as users build it
    'real': (['g++', '-O1', '-g1'], ['-lgf_complete', '-ldl'], False),
    # sanitizers see memory errors; the field is the model, so that its accesses are instrumented too
    'asan': (['clang++-18', '-O1', '-g1', '-fno-vectorize', '-fno-unroll-loops', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function'], ['-ldl'], True),
}


def build_native(scratch, harness, variant, capi, flags, kind):
    cxx, libs, model = NATIVE_KINDS[kind]
    out = '%s/%s-%s' % (scratch, tag_of(harness, variant, capi, flags), kind)
    if os.path.exists(out):
        return out
    srcs = [VERIF + '/rt/native.cc', '%s/harness/%s.cc' % (VERIF, harness)]
    if model:
        srcs.append(VERIF + '/rt/gf_model.cc')
    srcs += [os.path.join(REPO, s) for s in sources(capi)]
    cmds, objs = [], []
    for s in srcs:
        o = '%s.%s.o' % (out, s.strip('/').replace('/', '_'))
        objs.append(o)
        cmds.append(cxx + NAT + defs(variant) + flags + ['-c', s, '-o', o])
    run_all(cmds, 'native build')
    run_all([cxx + objs + ['-o', out + '.tmp'] + libs], 'native link')
    os.rename(out + '.tmp', out)
    return out


def run_native(exe, inputs, params, timeout=60, wrap=()):
    cmd = list(wrap) + [exe, inputs]
    for k, v in params.items():
        cmd += ['-P', '%s=%s' % (k, v)]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=1', UBSAN_OPTIONS='halt_on_error=1')
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), ''
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


def engine(job, bc, out, seed):
    cmd = [ENGINE, bc, '-e', 'harness', '-o', out, '-j', str(job['j']), '-t', str(job['t']), '-q', str(job.get('q', 60) * 1000),
           '-s', str(job.get('steps', 20000000)), '-samples', str(job.get('samples', 2)), '-maxviol', '3']
    if job.get('raw'):
        cmd.append('-raw')
    for k, v in job['params'].items():
        cmd += ['-P', '%s=%s' % (k, v)]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    killed = False
    try:
        txt, _ = p.communicate(timeout=job['t'] + 15)
    except subprocess.TimeoutExpired:
        killed = True
        os.killpg(p.pid, signal.SIGKILL)
        txt, _ = p.communicate()
    r = dict(inconclusive=set(), violations=[], samples=[], covers={}, check_msgs={}, functions=set(), wall=0.0,
             paths=0, steps=0, forks=0, assumed_away=0, q_total=0, q_sat=0, q_unsat=0, q_unknown=0, q_cache=0, checks=0, checks_solver=0,
             checks_folded=0, mem_checks=0, solver_s=0.0, solver_max=0.0)
    if killed:
        r['inconclusive'].add('time budget exhausted')
    elif p.returncode:
        r['inconclusive'].add('engine exit %s: %s' % (p.returncode, txt.decode(errors='replace')[-500:]))
    for f in [out] + sorted(glob.glob(out + '.[0-9]*')):
        try:
            d = json.load(open(f))
        except (OSError, ValueError):
            continue
        for k in r:
            if k in ('inconclusive', 'functions'):
                r[k] |= set(d[k])
            elif k == 'samples':
                r[k] += d[k]
            elif k in ('covers', 'check_msgs'):
                for c, n in d[k].items():
                    r[k][c] = r[k].get(c, 0) + n
            elif k == 'solver_max':
                r[k] = max(r[k], d[k])
            elif k in ('violations', 'wall'):
                pass
            else:
                r[k] += d[k]
    try:
        seen = set()
        for l in open(out + '.viol'):
            try:
                v = json.loads(l)
            except ValueError:
                continue
            if (v['kind'], v['msg']) not in seen:
                seen.add((v['kind'], v['msg']))
                r['violations'].append(v)
    except OSError:
        pass
    r['wall'] = time.time() - t
    return r


def schedule(jobs, fn, slots=8):
    """Run jobs, each taking job['j'] of the slots; stop starting new ones once one found a violation."""
    cond = threading.Condition()
    free = [slots]
    stop = [False]
    errs = []

    def one(job):
        try:
            fn(job)
            if job['result']['violations']:
                stop[0] = True
        except Exception as e:     # noqa
            errs.append(e)
            stop[0] = True
        with cond:
            free[0] += job['j']
            cond.notify_all()
    ts = []
    for job in sorted(jobs, key=lambda j: -j['j']):
        with cond:
            while free[0] < job['j']:
                cond.wait()
            if stop[0]:
                break
            free[0] -= job['j']
        t = threading.Thread(target=one, args=(job,))
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


def known_findings(prop):
    """Open findings: {"property", "kind", "match": substring of the message, "params": {...}, "what"}"""
    try:
        d = json.load(open(VERIF + '/known_findings.json'))
    except OSError:
        return []
    return [f for f in d['open'] if f['property'] == prop]


def confirm(scratch, job, v, n, prop):
    """Replay a counterexample natively.  Returns (confirmed, how, text)."""
    inp = '%s/cex-%d.txt' % (scratch, n)
    with open(inp, 'w') as f:
        f.write('\n'.join(v['inputs']) + '\n')
    variant, flags, capi = job['variant'], job['flags'], job['capi']
    tried = []
    slow = v['kind'] == 'nontermination'
    exe = build_native(scratch, job['harness'], variant, capi, flags, 'real')
    rc, so, se = run_native(exe, inp, job['params'], timeout=20 if slow else 120)
    fail = [l for l in so.splitlines() if l.startswith(('FAIL', 'EXC', 'DIVERGED', 'ASSUME'))]
    tried.append('real library: rc=%s %s %s' % (rc, fail, se[-300:]))
    if rc == 'timeout' or rc == 1 or (isinstance(rc, int) and rc < 0) or rc == 6:
        return True, 'native run with the real field library', tried, inp
    exe = build_native(scratch, job['harness'], variant, capi, flags, 'asan')
    rc, so, se = run_native(exe, inp, job['params'], timeout=20 if slow else 120)
    fail = [l for l in so.splitlines() if l.startswith(('FAIL', 'EXC', 'DIVERGED', 'ASSUME'))]
    head = [l for l in se.splitlines() if 'ERROR' in l or 'runtime error' in l][:2]
    tried.append('address/undefined sanitizers: rc=%s %s %s' % (rc, fail, head))
    if rc == 'timeout' or (rc not in (0, 4, 5)):
        return True, 'native run under address and undefined-behaviour sanitizers', tried, inp
    exe = build_native(scratch, job['harness'], variant, capi, flags, 'real')
    rc, so, se = run_native(exe, inp, job['params'], timeout=200, wrap=['valgrind', '-q', '--error-exitcode=99', '--track-origins=no'])
    head = [l for l in se.splitlines() if l.startswith('==')][:6]
    tried.append('valgrind: rc=%s %s' % (rc, head))
    if rc == 99 or rc == 1:
        return True, 'native run under valgrind', tried, inp
    return False, '', tried, inp


def replay_file(path):
    d = json.load(open(path))
    scratch = '%s/scratch/replay-%d' % (VERIF, os.getpid())
    os.makedirs(scratch)
    try:
        job = dict(harness=d['harness'], variant=d['variant'], flags=d['flags'], capi=d['capi'], params=d['params'])
        ok, how, tried, _ = confirm(scratch, job, d, 0, d['property'])
        log(d['kind'], d['msg'])
        for t in tried:
            log('  ', t)
        log('reproduced' if ok else 'not reproduced')
        return 1 if ok else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        return replay_file(args[1])
    prop = args[0]
    tier = 'thorough' if '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    ev_file = os.path.join(ev_dir, prop + '.json')
    if os.path.exists(ev_file):
        os.unlink(ev_file)
    scratch = '%s/scratch/%s-%d' % (VERIF, prop, os.getpid())
    os.makedirs(scratch)
    if not os.path.exists(ENGINE):
        subprocess.run(['make', '-s', '-C', VERIF + '/engine'], check=True)
    try:
        return check(prop, spec, tier, seed, t0, scratch, ev_file, args)
    except Err as e:
        log('ERROR', e)
        return 2
    finally:
        if '--keep' not in args:
            shutil.rmtree(scratch, ignore_errors=True)


def check(prop, spec, tier, seed, t0, scratch, ev_file, args):
    jobs = []
    for j in spec['jobs'](tier):
        j = dict(j)
        j.setdefault('variant', 'ndebug')
        j.setdefault('flags', [])
        j.setdefault('capi', False)
        j.setdefault('j', 1)
        j.setdefault('t', 300 if tier == 'quick' else 1500)
        jobs.append(j)
    if '--only' in args:
        jobs = [jobs[int(args[args.index('--only') + 1])]]
    # Build: one bitcode and one native program per (harness, variant).
    kinds = {}
    for j in jobs:
        kinds.setdefault((j['harness'], j['variant'], j['capi'], tuple(j['flags'])), None)
    skipped = []
    for k in list(kinds):
        try:
            kinds[k] = build_bc(scratch, k[0], k[1], k[2], list(k[3]))
        except Err as e:
            # A job that reaches into an internal helper is left out when that helper is gone.
            mine = [j for j in jobs if (j['harness'], j['variant'], j['capi'], tuple(j['flags'])) == k]
            if not all(j.get('optional') for j in mine):
                raise
            skipped.append('%s %s: %s' % (k[0], k[3], str(e)[-300:]))
            jobs = [j for j in jobs if j not in mine]
    for i, j in enumerate(jobs):
        j['bc'] = kinds[(j['harness'], j['variant'], j['capi'], tuple(j['flags']))]
        j['n'] = i
    if 'pre' in spec:
        e = spec['pre'](scratch)
        if e:
            raise Err('the stand-in of the field library differs from it: ' + e)
    t_build = time.time() - t0

    def one(job):
        job['result'] = engine(job, job['bc'], '%s/out-%d.json' % (scratch, job['n']), seed)
        if '-v' in args:
            r = job['result']
            log('  job %d %s %s paths=%d steps=%d q=%d solver=%.1fs wall=%.1fs%s%s %s' % (
                job['n'], job['harness'], job['params'], r['paths'], r['steps'], r['q_total'], r['solver_s'], r['wall'],
                ' INCONCLUSIVE %s' % list(r['inconclusive'])[:2] if r['inconclusive'] else '', ' VIOL' if r['violations'] else '', r['covers'] if '-vv' in args else ''))
    t1 = time.time()
    schedule(jobs, one)
    t_engine = time.time() - t1
    done = [j for j in jobs if 'result' in j]

    # Counterexamples: reproduce, then report.
    open_findings = known_findings(prop)
    confirmed, unconfirmed, known = [], [], []
    n = 0
    for j in done:
        for v in j['result']['violations']:
            if confirmed and len(confirmed) + len(unconfirmed) > 3:
                continue
            f = next((f for f in open_findings if f['kind'] == v['kind'] and f['match'] in v['msg'] and all(str(j['params'].get(k)) == str(x) for k, x in f.get('params', {}).items())), None)
            if f:
                known.append(f)
                continue
            if v['msg'].startswith('harness:'):
                pass
            ok, how, tried, inp = confirm(scratch, j, v, n, prop)
            n += 1
            (confirmed if ok else unconfirmed).append((j, v, how, tried))
            if ok:
                break
        if confirmed:
            break

    # Sampled paths: the executor's trace must be the real program's.
    validated, mismatch, samples_shown = 0, [], []
    if not confirmed and not unconfirmed:
        for j in done:
            for s in j['result']['samples'][:2]:
                exe = build_native(scratch, j['harness'], j['variant'], j['capi'], j['flags'], 'real')
                inp = '%s/sample.txt' % scratch
                with open(inp, 'w') as f:
                    f.write('\n'.join(s['inputs']) + '\n')
                rc, so, se = run_native(exe, inp, j['params'])
                tr = [l.split()[1] for l in so.splitlines() if l.startswith('TRACE')]
                if rc == 0 and tr == s['trace']:
                    validated += 1
                    if len(samples_shown) < 3:
                        samples_shown.append({'harness': j['harness'], 'params': j['params'], 'inputs': s['inputs'][:12], 'trace': s['trace'][:24]})
                elif rc == 1 or (isinstance(rc, int) and rc < 0) or rc == 'timeout':
                    v = dict(kind='sample', msg='native run of a sampled path fails: rc=%s %s' % (rc, so[-300:]), loc='', inputs=s['inputs'], trace=s['trace'])
                    confirmed.append((j, v, 'native run with the real field library', [so[-500:], se[-500:]]))
                else:
                    mismatch.append('%s %s: rc=%s executor %s native %s' % (j['harness'], j['params'], rc, s['trace'][:20], tr[:20]))
                if confirmed:
                    break
            if confirmed:
                break

    R = [j['result'] for j in done]
    tot = lambda k: sum(r[k] for r in R)   # noqa: E731
    covers = {}
    for j in done:
        for c, k in j['result']['covers'].items():
            covers[c] = covers.get(c, 0) + k
    missing = [c for c in spec.get('covers', ['end']) if not covers.get(c)]
    inconcl = sorted(set(x for r in R for x in r['inconclusive']))
    fns = sorted(f for f in set().union(*[r['functions'] for r in R]) if 'ntc::' in f or f.startswith('ntc_')) if R else []
    msgs = {}
    for r in R:
        for m, k in r['check_msgs'].items():
            msgs[m] = msgs.get(m, 0) + k
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
        'assumptions': spec.get('assumptions', []) + COMMON_ASSUMPTIONS + ['left out, does not compile: ' + x for x in skipped],
        'coverage': {
            'states': tot('paths') + tot('forks'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated,
            'samples': samples_shown,
            'bounds': spec['bounds'](tier) if callable(spec['bounds']) else spec['bounds'],
            'functions_encoded': len(fns), 'functions': fns[:200],
            'paths_completed': tot('paths'), 'paths_excluded_by_assumptions': tot('assumed_away'),
            'assertions_evaluated': tot('checks'), 'assertions_decided_by_smt': tot('checks_solver'),
            'assertions_decided_by_normal_form': tot('checks_folded'), 'assertions': msgs,
            'memory_accesses_checked': tot('mem_checks'),
            'queries': {'total': tot('q_total'), 'sat': tot('q_sat'), 'unsat': tot('q_unsat'), 'unknown': tot('q_unknown'), 'answered_from_cache': tot('q_cache')},
            'solver_s': round(tot('solver_s'), 3), 'slowest_query_s': round(max([r['solver_max'] for r in R] or [0]), 3),
            'engine_s': round(t_engine, 2), 'build_s': round(t_build, 2),
            'configurations': [{'harness': j['harness'], 'variant': j['variant'], 'params': j['params'], 'normal_form': not j.get('raw', False), 'paths': j['result']['paths'], 'wall_s': round(j['result']['wall'], 2)} for j in done],
            'reached': covers, 'exhaustive': not inconcl and not confirmed and not unconfirmed and len(done) == len(jobs),
            'inconclusive': inconcl,
        },
    }
    with open(ev_file, 'w') as f:
        json.dump(ev, f, indent=1)
    for f in {f['what']: f for f in known}.values():
        log('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    log('%s %s: %d configurations, %d paths, %d assertions (%d by SMT), %d queries, solver %.1f s, %d traces validated, %.1f s' % (
        prop, tier, len(done), tot('paths'), tot('checks'), tot('checks_solver'), tot('q_total'), tot('solver_s'), validated, time.time() - t0))
    if confirmed:
        j, v, how, tried = confirmed[0]
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%d.json' % (prop, os.getpid()))
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, harness=j['harness'], variant=j['variant'], flags=j['flags'], capi=j['capi'], params=j['params'],
                           kind=v['kind'], msg=v['msg'], loc=v['loc'], inputs=v['inputs'], trace=v['trace'], reproduced_by=how), f, indent=1)
        log('%s: %s [%s %s]' % (v['kind'], v['msg'], j['harness'], j['params']))
        log('  at', v['loc'])
        for l in v['inputs'][:40]:
            log('  input', l if len(l) < 160 else l[:156] + ' ...')
        log('  reproduced by', how, tried[-1])
        log('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if unconfirmed:
        j, v, how, tried = unconfirmed[0]
        log('NO VERDICT: counterexample not reproduced natively: %s %s [%s %s] at %s' % (v['kind'], v['msg'], j['harness'], j['params'], v['loc']))
        for l in v['inputs'][:60]:
            log('  input', l if len(l) < 160 else l[:156] + ' ...')
        for t in tried:
            log('  ', t)
        return 2
    if inconcl:
        log('NO VERDICT: inconclusive:', inconcl[:5])
        return 2
    if mismatch:
        log('NO VERDICT: executor and native traces differ:', mismatch[:3])
        return 2
    if missing:
        log('NO VERDICT: vacuous, never reached:', missing)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
