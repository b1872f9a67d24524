"""Runs one property's check: encode the current sources, explore every scenario symbolically, replay what the solver
reports on the real extension, write the evidence."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import sys
import threading
import time
import traceback

import z3

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.setrecursionlimit(20000)

from .memspec import cpu_flags  # noqa: E402
from . import build, ir, core, intrin, cpy, driver, events, real, props, avx512  # noqa: E402

MEM = {'use-after-free', 'out-of-bounds', 'wild-access', 'null-deref', 'double-free', 'invalid-free',
       'write-to-constant', 'misaligned', 'memcpy-overlap', 'wild-call', 'null-call', 'refcount-underflow',
       'cxx-exception-escape', 'cxx-terminate', 'trap', 'unreachable', 'undef-branch', 'div-by-zero', 'div-overflow',
       'stack-overflow', 'nontermination', 'fatal', 'malformed-int', 'bad-api-use', 'null-item', 'uninit'}
FUNC = MEM | {'mismatch', 'error-protocol', 'isa'}
REFS = {'leak', 'refcount-underflow', 'use-after-free', 'double-free'}
GIL = {'gil', 'no-gil', 'race', 'error-protocol'} | MEM
KINDS = {'func': FUNC, 'mem': MEM, 'refs': REFS, 'leak': {'leak'}, 'gil': GIL, 'all': FUNC | REFS | GIL,
         'fault': FUNC | REFS | GIL}

ENG = None
SCENS = None


def model_inputs(st, ctx):
    m = st.get_model()
    out = {}
    for n, b in ctx.bv.items():
        v = m.eval(b, model_completion=True)
        out[n] = (1 if z3.is_true(v) else 0) if z3.is_bool(v) else v.as_signed_long()
    for n, b in ctx.ranks.items():
        out[n] = m.eval(b, model_completion=True).as_signed_long()
    return out


def explore_one(arg):
    """explore scenario i completely (within its deadline)"""
    i, deadline, nsamples = arg
    eng = ENG
    s = SCENS[i]
    t = time.time()
    out = {'i': i, 'cands': [], 'unsup': {}, 'samples': [], 'cut': [], 'undef': 0}
    p0 = dict(eng.stats)
    if not hasattr(eng, 'solvers'):
        eng.solvers = {None: eng.solv, 'QF_BV': core.Solv(logic='QF_BV')}
    eng.solv = eng.solvers['QF_BV' if 'two' in s else s.get('logic')]
    q0, z0, e0, n0 = eng.solv.queries, eng.solv.time, set(eng.encoded), set(eng.called_natives)
    seen = {}
    try:
        d = driver.Driver(eng, s)
        st = d.initial()
    except Exception as e:
        out['unsup']['setup: %s' % e] = 1
        return out

    def bug(x, e):
        k = (e.kind, re.sub(r'\d+|0x[0-9a-f]+', '#', str(e))[:200])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2:
            return
        try:
            inp = model_inputs(x, d.ctx)
        except Exception as ex:  # infeasible or undecided: no witness
            out['unsup']['no witness for %s: %s' % (e.kind, type(ex).__name__)] = 1
            return
        out['cands'].append({'i': i, 'kind': e.kind, 'msg': str(e)[:300], 'step': x.x.get('cur_step'), 'inputs': inp,
                             'faults': [str(h) for h in x.x.get('fault_hit', ())],
                             'stack': [f.fn.name for f in x.frames if getattr(f, 'fn', None)][-6:]})

    def uns(x, e):
        k = str(e)[:200]
        out['unsup'][k] = out['unsup'].get(k, 0) + 1
        if out['unsup'][k] <= 2 and len(out['cut']) < 6 and time.time() < deadline and not x.x.get('fault_hit'):
            try:
                out['cut'].append(model_inputs(x, d.ctx))
            except Exception:
                pass

    def done(x):
        if x.x.get('undef'):
            out['undef'] += 1
        if len(out['samples']) < nsamples and not x.x.get('fault_hit'):
            try:
                out['samples'].append(model_inputs(x, d.ctx))
            except Exception:
                pass
    eng.deadline = deadline if s.get('limit') is None else min(deadline, time.time() + s['limit'])
    eng.driver = d
    try:
        eng.explore(st, done, bug, uns, max_paths=s.get('max_paths', 200000))
    except Exception:
        out['unsup']['engine: ' + traceback.format_exc()[-400:]] = 1
    out['stats'] = {k: eng.stats[k] - p0.get(k, 0) for k in eng.stats}
    out['queries'] = eng.solv.queries - q0
    out['ztime'] = eng.solv.time - z0
    out['encoded'] = sorted(eng.encoded - e0)
    out['natives'] = sorted(eng.called_natives - n0)
    out['wall'] = time.time() - t
    eng.keep.clear() if len(eng.keep) > 200000 else None
    return out


def make_engine(mod, cpu, isa=False):
    eng = core.Engine(mod)
    if isa:
        eng.isa = driver.isa_check
    cpy.install(eng)
    events.install(eng)
    driver.discover(eng, cpu)
    return eng


def phase(mod, cpu, scens, deadline, nsamples, conn, nproc):
    """explore all scenarios for one processor level (runs in its own process)"""
    global ENG, SCENS
    try:
        ENG = make_engine(mod, cpu, any(s.get('cpu') for s in scens))
        SCENS = scens
        conn.send(('init', {'encoded': sorted(ENG.encoded), 'natives': sorted(ENG.called_natives)}))
        with cf.ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork')) as ex:
            fs = {ex.submit(explore_one, (i, deadline, nsamples)): i for i in range(len(scens))}
            left = set(fs)
            try:
                for f in cf.as_completed(fs, timeout=max(1, deadline + 45 - time.time())):
                    left.discard(f)
                    try:
                        conn.send(('res', f.result()))
                    except cf.process.BrokenProcessPool:
                        raise
                    except Exception as e:
                        conn.send(('res', {'i': fs[f], 'cands': [], 'unsup': {'worker: %r' % e: 1}, 'samples': [], 'undef': 0}))
            except (cf.TimeoutError, cf.process.BrokenProcessPool) as e:
                for f in left:
                    conn.send(('res', {'i': fs[f], 'cands': [], 'unsup': {'not finished: %s' % type(e).__name__: 1},
                                       'samples': [], 'undef': 0}))
                ex.shutdown(wait=False, cancel_futures=True)
                for p in list((ex._processes or {}).values()):
                    p.kill()
        conn.send(('end', None))
    except Exception:
        conn.send(('fail', traceback.format_exc()[-1500:]))
    conn.close()


def run_phase(mod, cpu, scens, deadline, nsamples, nproc=8):
    a, b = mp.Pipe(False)
    p = mp.get_context('fork').Process(target=phase, args=(mod, cpu, scens, deadline, nsamples, b, nproc))
    p.start()
    b.close()
    res, init, fail = [], {}, None
    while True:
        try:
            k, v = a.recv()
        except EOFError:
            fail = fail or 'the exploring process ended unexpectedly'
            break
        if k == 'res':
            res.append(v)
        elif k == 'init':
            init = v
        elif k == 'fail':
            fail = v
            break
        else:
            break
    p.join(30)
    if p.is_alive():
        p.kill()
    return res, init, fail


# ------------------------------------------------------------------ replay
def clean(scen):
    """the part of a scenario the replay process needs"""
    d = {k: v for k, v in scen.items() if k in ('name', 'inputs', 'events', 'free', 'perm', 'release', 'low')}
    d['steps'] = [{k: v for k, v in s.items() if k != 'cond'} for s in scen['steps']]
    return json.loads(json.dumps(d))


def bad_result(res, rc, err, jobid):
    """-> description of the failure, or None when the job ran as it should"""
    done = [r for r in res if r['vt'] == jobid]
    if not done:
        return real.classify(rc, err)
    r = done[0]
    if r['status'] in ('ok', 'undef', 'inconclusive'):
        return None
    return '%s: %s' % (r['status'], r.get('msg', ''))


def replay(d, cpu, job, timeout=40):
    if job.get('cpu'):
        cpu = job['cpu']
    if job.get('poison'):
        d = real.poisoned(job['poison'])
    res, rc, err = real.run_batch(d, cpu, [job], timeout)
    return bad_result(res, rc, err, job['id'])


def make_job(jid, scen, cand, kinds):
    job = {'id': jid, 'scen': clean(scen), 'inputs': cand['inputs']}
    if scen.get('alone'):
        job['alone'] = 1
    if scen.get('cpu'):
        i = {k: int(cand['inputs'].get(k, 0)) & ((1 << 64) - 1) for k in ('ecx', 'ebx', 'xcr', 'max')}
        job['cpu'] = '%x,%x,%x,%x' % (i['ecx'] & 0xffffffff, i['ebx'] & 0xffffffff, i['xcr'], i['max'] & 0xffffffff)
        if cand['kind'] == 'isa':
            f = cpu_flags(i['max'] & 0xffffffff, i['ecx'], i['ebx'], i['xcr'])
            job['poison'] = [k for k, ok in (('avx512', f['isAVX512Supported']),
                                             ('avx2', f['isAVX2Supported'] or f['isAVX512Supported']),
                                             ('ssse3', f['isSSSE3Supported'] or f['isAVX2Supported'] or f['isAVX512Supported'])) if not ok]
    if 'low' in scen:
        job['also'] = avx512.variations(scen) if cand['kind'] else []
    elif cand['faults']:
        job['sweep'] = 80
        if cand['kind'] in REFS:
            job['refs'] = 1
    elif cand['kind'] in REFS:
        job['refs'] = 1
        job['leak'] = 300
    return job


# ------------------------------------------------------------------ main
def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except OSError:
        return {'findings': []}


def known_for(pid, cpu, scen, cand, desc, known):
    for k in known.get('findings', ()):
        if k['property'] == pid and re.fullmatch(k['scenario'], scen['name']) and re.search(k['what'], desc):
            return k
    return None


def main(pid, thorough):
    t0 = time.time()
    P = props.PROPS[pid]
    if 'main' in P:
        return P['main'](pid, thorough)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if thorough else 'quick'
    budget = P.get('budget', {}).get(tier, 700 if thorough else 240)
    deadline = t0 + budget
    box = {}

    def breal():
        try:
            box['dir'] = real.build_real(avx512=bool(P.get('avx512')))
        except Exception as e:
            box['err'] = str(e)
    build.scratch()
    th = threading.Thread(target=breal)
    if P.get('avx512'):
        ll = build.build_ir(skip=lambda p: False, more=[avx512.write_source()])
    else:
        ll = build.build_ir()
    th.start()
    mod = ir.Module(open(ll).read())
    tb = time.time() - t0
    plan = P['plan'](thorough)  # [(cpu, [scenarios])]
    kinds = KINDS[P.get('kinds', 'func')]
    samples_per = P.get('samples', 1)
    allres = []
    fails = []
    tot = {'paths': 0, 'forks': 0, 'instrs': 0, 'unsupported': 0, 'infeasible': 0, 'bugs': 0, 'asserts': 0}
    queries = 0
    ztime = 0.0
    encoded, natives = set(), set()
    unsup = {}
    undef = 0
    cands = []
    samples = []
    cut = []
    nsc = 0
    for cpu, scens in plan:
        res, init, fail = run_phase(mod, cpu, scens, deadline, samples_per)
        nsc += len(scens)
        if fail:
            fails.append('%s: %s' % (cpu, fail))
        encoded |= set(init.get('encoded', ()))
        natives |= set(init.get('natives', ()))
        for r in res:
            for k in tot:
                tot[k] += r.get('stats', {}).get(k, 0)
            queries += r.get('queries', 0)
            ztime += r.get('ztime', 0)
            encoded |= set(r.get('encoded', ()))
            natives |= set(r.get('natives', ()))
            undef += r['undef']
            for k, n in r['unsup'].items():
                u = unsup.setdefault(k, [0, scens[r['i']]['name']])
                u[0] += n
            for c in r['cands']:
                cands.append((cpu, scens[r['i']], c))
            for s in r['samples']:
                samples.append((cpu, scens[r['i']], s))
            for s in r.get('cut', ()):
                cut.append((cpu, scens[r['i']], s))
        allres.append((cpu, len(scens), len(res), sum(r.get('wall', 0) for r in res)))
    th.join()
    texp = time.time() - t0
    violations, notes, known_lines = [], [], []
    known = load_known()
    if 'dir' not in box:
        fails.append('replay build: ' + box.get('err', '?'))
    # ---- replay of what the solver reported
    rel = [c for c in cands if c[2]['kind'] in kinds]
    groups = {}
    for c in rel:
        k = (c[0], re.sub(r'/n\d+.*', '', c[1]['name']), c[2]['kind'], re.sub(r'-?\d+', '#', c[2]['msg']))
        groups.setdefault(k, []).append(c)
    confirmed = {}
    nrep = 0
    if groups and 'dir' in box:
        order = sorted(groups, key=lambda k: (len(groups[k][0][2]['inputs']), str(k)))
        kindcount = {}
        jobs = []
        for k in order:
            for c in groups[k][:2]:
                n = kindcount.get((k[1], k[2]), 0)
                if n < 3 and len(jobs) < 48:
                    kindcount[(k[1], k[2])] = n + 1
                    jobs.append((k, c))

        def one(a):
            k, c = a
            job = make_job('r', c[1], c[2], kinds)
            return k, c, job, replay(box['dir'], c[0], job)
        with cf.ThreadPoolExecutor(6) as ex:
            for k, c, job, desc in ex.map(one, jobs):
                nrep += 1
                if desc is None:
                    notes.append('not reproduced: %s [%s] %s: %s' % (c[1]['name'], c[0], c[2]['kind'], c[2]['msg'][:120]))
                    continue
                confirmed.setdefault(k, (c, job, desc))
    for k, (c, job, desc) in confirmed.items():
        violations.append((c[0], c[1], c[2], job, desc))
    # ---- completed paths run on the real code as well
    nval = 0
    import random
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    rnd.shuffle(cut)
    samples = cut[:300] + samples  # where the encoding stopped, at least the solver's inputs for the way there are run
    limit = P.get('validate', {}).get(tier, 3000 if thorough else 600)
    if 'dir' in box:
        for cpu in sorted({s[0] for s in samples}):
            todo = [s for s in samples if s[0] == cpu][:limit]
            jobs = [make_job(i, s[1], {'inputs': s[2], 'faults': (), 'kind': '', 'msg': ''}, kinds) for i, s in enumerate(todo)]
            alone = [j for j in jobs if j.get('cpu') or j.get('alone')][:limit // 8]
            jobs = [j for j in jobs if not j.get('cpu') and not j.get('alone')]
            with cf.ThreadPoolExecutor(8) as ex:
                for j, desc in ex.map(lambda j: (j, replay(box['dir'], cpu, j)), alone):
                    s = todo[j['id']]
                    if desc:
                        violations.append((cpu, s[1], {'inputs': s[2], 'kind': 'validation', 'msg': desc, 'step': None}, j, desc))
                    else:
                        nval += 1
            while jobs and time.time() < t0 + 840:
                res, rc, err = real.run_batch(box['dir'], cpu, jobs, 150)
                ok = {r['vt']: r for r in res if r['vt'] != 'start'}
                nval += sum(1 for r in ok.values() if r['status'] == 'ok')
                for r in ok.values():
                    if r['status'] not in ('ok', 'undef', 'inconclusive'):
                        s = todo[r['vt']]
                        one = make_job('v', s[1], {'inputs': s[2], 'faults': (), 'kind': '', 'msg': ''}, kinds)
                        desc = replay(box['dir'], cpu, one)
                        if desc and 'func' in (P.get('kinds', 'func'),):
                            violations.append((cpu, s[1], {'inputs': s[2], 'kind': 'validation', 'msg': desc, 'step': r.get('step')}, one, desc))
                        elif desc:
                            notes.append('validation: %s %s' % (s[1]['name'], desc))
                if not res:
                    fails.append('the replay process did not start: ' + err[-300:])
                started = [r['id'] for r in res if r['vt'] == 'start']
                if len(ok) >= len(jobs) or not started or rc == 'timeout':
                    break
                last = started[-1]
                if last not in ok:
                    s = todo[last]
                    one = make_job('v', s[1], {'inputs': s[2], 'faults': (), 'kind': '', 'msg': ''}, kinds)
                    desc = replay(box['dir'], cpu, one)
                    if desc and P.get('kinds', 'func') in ('func', 'mem', 'all', 'fault'):
                        violations.append((cpu, s[1], {'inputs': s[2], 'kind': 'validation', 'msg': desc, 'step': None}, one, desc))
                idx = [j['id'] for j in jobs].index(last)
                jobs = jobs[idx + 1:]
                if len(violations) > 20:
                    break
    # ---- report
    shown = []
    rdir = os.path.join(VERIF, 'replays')
    for n, (cpu, scen, cand, job, desc) in enumerate(violations):
        kn = known_for(pid, cpu, scen, cand, desc, known)
        if kn:
            line = 'KNOWN-FINDING: property=%s %s' % (pid, kn['title'])
            if line not in known_lines:
                known_lines.append(line)
            continue
        if len(shown) < 5:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%d.json' % (pid, len(shown)))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'cpu': cpu, 'scenario': scen['name'], 'solver': {
                    k: cand.get(k) for k in ('kind', 'msg', 'step', 'stack', 'inputs')}, 'observed': desc, 'job': job,
                    'rerun': './check.py --replay ' + path}, f, indent=1, default=str)
        else:
            path = '-'
        shown.append((path, scen['name'], desc))
    wall = time.time() - t0
    complete = not unsup and not fails
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': tot['paths'], 'transitions': tot['instrs'], 'traces_validated_against_impl': nval,
              'samples': [{'scenario': s[1]['name'], 'cpu': s[0], 'inputs': {k: str(v) for k, v in s[2].items()}}
                          for s in samples[:4]],
              'explanation': 'states = feasible symbolic paths explored to the end of their scenario, each standing for '
                             'all inputs that take it; transitions = LLVM instructions executed symbolically',
              'scenarios': nsc, 'phases': [{'cpu': a, 'scenarios': b, 'finished': c, 'cpu_s': round(w, 1)} for a, b, c, w in allres],
              'paths_outside_specification': undef, 'assertions_by_solver': tot['asserts'],
              'queries_discharged': queries, 'solver_s': round(ztime, 2), 'forks': tot['forks'],
              'functions_encoded': sorted(demangle(encoded)), 'library_models_used': sorted(natives),
              'bounds': P['bounds'](thorough) if callable(P.get('bounds')) else P.get('bounds', ''),
              'bounds_exhausted': complete,
              'incomplete': {k: {'count': v[0], 'first': v[1]} for k, v in sorted(unsup.items())[:40]},
              'failures': fails, 'candidates': len(rel), 'replayed': nrep, 'notes': notes[:20],
              'other_candidates': len(cands) - len(rel), 'inputs_of_incomplete_paths_run': len(cut)},
          'assumptions': props.ASSUME + P.get('assume', []), 'wall_s': round(wall, 1), 'violations': len(shown)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for line in known_lines:
        print(line)
    print('%s %s: %d scenarios, %d paths, %d queries (%.1fs solver), %d traces run on the real code, %d candidates, '
          '%d violations, build %.1fs, explored %.1fs, total %.1fs' % (
              pid, tier, nsc, tot['paths'], queries, ztime, nval, len(rel), len(shown), tb, texp, wall))
    for k, v in sorted(unsup.items())[:12]:
        print('  incomplete: %s (%d, e.g. %s)' % (k[-300:], v[0], v[1]))
    for x in notes[:8]:
        print('  note:', x)
    for x in fails:
        print('  failure:', x)
    for path, name, desc in shown[:5]:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s' % (name, desc))
    if shown:
        return 1
    if fails:
        return 2
    return 0


def demangle(names):
    import subprocess
    try:
        p = subprocess.run(['/usr/bin/c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return [x[:120] for x in p.stdout.splitlines()]
    except OSError:
        return list(names)


def rerun(path):
    with open(path) as f:
        d = json.load(f)
    dr = real.build_real(avx512='low' in d['job']['scen'])
    desc = replay(dr, d['cpu'], d['job'])
    print(d['scenario'], d['cpu'], '->', desc or 'behaves as expected')
    return 1 if desc else 0
