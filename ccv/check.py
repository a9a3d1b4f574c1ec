"""bin/check <property> [--tier quick|thorough]: proofs + contract replay on the real code, verdict, evidence."""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, shutil, subprocess, sys, tempfile, threading, time, traceback
from . import frontend, prove, solver

VERIF = frontend.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')

def known(prop):
    """lines 'known: property=<id> key=<key> <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                k, _, txt = rest.partition(' ')
                out[k[len('key='):]] = txt
    return out

# ------------------------------------------------------------------ proofs
def _one(args):
    modname, idx, budget = args
    m = importlib.import_module('contracts.' + modname)
    ps = m.PROOFS() if callable(m.PROOFS) else m.PROOFS
    p = ps[idx]
    solver.STATS.update(queries=0, time=0.0, z3_proved=0, cvc5_proved=0)
    t0 = time.time()
    try:
        r = prove.run(p, budget=budget, bmc_budget=budget / 2)
    except Exception as e:
        r = prove.Result(p.name); r.status = 'error'; r.reason = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    d = dict(name=p.name, fn=p.fn, status=r.status, reason=r.reason, bounded=r.bounded, paths=r.paths, secs=round(time.time() - t0, 2),
             models=sorted(r.models), inlined=sorted(r.inlined), file=r.file, line=r.line, stats=dict(solver.STATS), assume=list(getattr(p, 'assume', [])))
    d['obls'] = [dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, fn=o.fn, line=o.line, exact=o.exact) for o in r.obls]
    d['failed'] = [dict(name=o.name, kind=o.kind, status=o.status, exact=o.exact, fn=o.fn, line=o.line, detail=o.detail,
                        model=prove.model_text(o), goal=str(o.goal)[:2000]) for o in r.failed]
    return d

def _lemmas(modname):
    m = importlib.import_module('contracts.' + modname)
    out = []
    for l in getattr(m, 'lemmas', lambda: [])():
        t0 = time.time()
        r = solver.check(l[1], l[2], 20000)
        out.append(dict(name=l[0], kind='lemma', status=r[0], backend=r[1] if r[0] == 'proved' else '', fn='(lemma)', line=0, exact=True, secs=time.time() - t0))
    return out

# ------------------------------------------------------------------ replay campaign
CXX = 'clang++-18'
def build_harness(h, out):
    """h: dict(src, repo=[...], flags=[...], libs=[...], san=True)"""
    src = os.path.join(VERIF, 'replay', h['src'])
    inc = ['-I' + os.path.join(frontend.REPO, i) for i in frontend.INCLUDES] + ['-I' + os.path.join(VERIF, 'replay')]
    san = ['-fsanitize=' + h.get('san', 'address,undefined'), '-fno-sanitize-recover=all'] if h.get('san', 1) else []
    base = [h.get('cxx', CXX), '-std=c++20', '-g1', '-O1', '-w', '-DREPO_ROOT="%s"' % frontend.REPO] + san + h.get('flags', []) + inc
    objs = []; procs = []
    for i, s in enumerate([src] + [os.path.join(frontend.REPO, x) for x in h.get('repo', [])]):
        o = '%s.%d.o' % (out, i); objs.append(o)
        procs.append((s, subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for extra in h.get('so', []):
        o = out + '.' + os.path.basename(extra) + '.so'
        procs.append((extra, subprocess.Popen(['clang-18', '-shared', '-fPIC', '-O1', '-w', os.path.join(VERIF, 'replay', extra), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    errs = []
    for s, p in procs:
        txt = p.communicate()[0]
        if p.returncode: errs.append('%s:\n%s' % (s, txt[-3000:]))
    if errs: return None, '\n'.join(errs)
    r = subprocess.run(base + objs + h.get('libs', []) + ['-o', out], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    return out, ''

def campaign(prop, h, tier, seed, scratch, res):
    t0 = time.time()
    res.update(name=h['src'], cases=0, distinct=0, fails=[], knowns=[], samples=[], error='', rule='')
    try:
        exe, err = build_harness(h, os.path.join(scratch, 'h_' + h['src'].replace('.', '_')))
        res['build_s'] = round(time.time() - t0, 1)
        if exe is None:
            res['error'] = 'harness does not build: ' + err; return
        wd = os.path.join(scratch, 'work_' + h['src'].replace('.', '_')); os.makedirs(wd, exist_ok=True)
        env = {k: v for k, v in os.environ.items() if not k.startswith(('DAISY', '__DAISY', 'DOCC', 'RPC_', 'ASAN', 'UBSAN'))}
        env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=98', HOME=wd)
        for extra in h.get('so', []): env['SO_' + os.path.basename(extra).split('.')[0]] = exe + '.' + os.path.basename(extra) + '.so'
        limit = h.get('timeout', 60) * (5 if tier == 'thorough' else 1)
        try:
            r = subprocess.run([exe, prop, wd] + h.get('args', []), capture_output=True, cwd=wd, env=env, timeout=limit + 60)
            out = r.stdout.decode(errors='replace'); er = r.stderr.decode(errors='replace'); rc = r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace'); er = (e.stderr or b'').decode(errors='replace'); rc = 'timeout'
        last = ''
        for l in out.split('\n'):
            if l.startswith('CASES '): res['cases'] = int(l[6:])
            elif l.startswith('DISTINCT '): res['distinct'] = int(l[9:])
            elif l.startswith('SAMPLE '): res['samples'].append(l[7:][:600])
            elif l.startswith('RULE '): res['rule'] = l[5:]
            elif l.startswith('KNOWN '): res['knowns'].append(l[6:])
            elif l.startswith('FAIL '): res['fails'].append(l[5:])
            elif l.startswith('AT '): last = l[3:]
        if rc == 77: res['error'] = 'the code under test calls a function the harness does not link: nothing decided by this harness'; res['cases'] = 0
        elif rc != 0 and not res['fails']:
            if rc == 'timeout': res['fails'].append('no answer within the time limit; last case: ' + last)
            else: res['fails'].append('the real code crashed (exit %s) in case: %s\n%s' % (rc, last, er[-4000:]))
        res['stderr'] = er[-2000:]
        res['run_s'] = round(time.time() - t0 - res['build_s'], 1)
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)

# ------------------------------------------------------------------ main
TRUST = ['the clang 18 front end and the mechanical AST extraction (ccv/extract/ccvx.cpp; drops: comments, inactive preprocessor branches, attributes, bodies of library functions)',
         'the semantics of C++ encoded in ccv/engine.py', 'the library models of ccv/stl.py that this proof used (listed under assumptions)',
         'z3 5.3.2 and cvc5 1.1.2']

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-campaign', action='store_true'); ap.add_argument('--no-proofs', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    m = importlib.import_module('contracts.' + prop)
    frontend.tool()
    ps = m.PROOFS() if callable(m.PROOFS) else m.PROOFS
    os.makedirs(frontend.BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=frontend.BUILD)
    camps = []
    threads = []
    if not a.no_campaign:
        for h in getattr(m, 'REPLAY', []):
            if h.get('tier') == 'thorough' and tier != 'thorough': continue
            d = {}; camps.append(d)
            th = threading.Thread(target=campaign, args=(prop, h, tier, seed, scratch, d)); threads.append(th)
    results = []; lems = []
    try:
        # forked workers first, threads afterwards
        budget = (300 if tier == 'thorough' else getattr(m, 'BUDGET', 120))
        if not a.no_proofs:
            # extract every unit in the parent so that the workers share it
            ext = ''
            for p in ps:
                try: p.unit()
                except frontend.ExtractionError as e: ext = str(e)
            with mp.get_context('fork').Pool(min(8, max(1, len(ps) + 1))) as pool:
                rl = pool.map_async(_lemmas, [prop])
                rs = [pool.apply_async(_one, ((prop, i, budget),)) for i in range(len(ps))]
                for th in threads: th.start()
                lems = rl.get(300)[0]
                for i, r in enumerate(rs):
                    try: results.append(r.get(max(5, 480 - (time.time() - t0))))
                    except mp.TimeoutError:
                        results.append(dict(name=ps[i].name, fn=ps[i].fn, status='undecided', reason='time limit', bounded=None, paths=0, secs=0, models=[], inlined=[], file='', line=0, obls=[], failed=[], stats={}, assume=[]))
                pool.terminate()
        else:
            for th in threads: th.start()
        for th in threads: th.join()
        return verdict(m, prop, tier, seed, t0, results, lems, camps, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def verdict(m, prop, tier, seed, t0, results, lems, camps, scratch):
    kf = known(prop)
    shown = set()
    viols = []          # (text, has_input)
    notes = []
    for c in camps:
        for k in c.get('knowns', []):
            key, _, txt = k.partition(' ')
            if key in kf:
                if key not in shown: print('KNOWN-FINDING: property=%s %s' % (prop, kf[key]))
                shown.add(key)
            else: viols.append(('unlisted finding %s' % k, True, None))
        for f in c.get('fails', []): viols.append((f, True, None))
        if c.get('error'): notes.append('replay %s: %s' % (c.get('name'), c['error']))
    for r in results:
        if r['status'] == 'refuted': viols.append(('obligation of %s refuted: %s' % (r['name'], r['reason']), False, r))
        elif r['status'] in ('undecided', 'error'): notes.append('%s NOT PROVED (%s)%s' % (r['name'], r['reason'][:400], '; bounded stand-in: %s' % r['bounded'] if r['bounded'] else ''))
    for l in lems:
        if l['status'] != 'proved': notes.append('lemma %s not proved' % l['name'])
    nob = sum(len(r['obls']) for r in results) + len(lems)
    ndis = sum(1 for r in results if True for o in r['obls'] if o['status'] == 'proved') + sum(1 for l in lems if l['status'] == 'proved')
    proved = [r['name'] for r in results if r['status'] == 'proved']
    back = {}
    for r in results:
        for o in r['obls']:
            if o['status'] == 'proved': back[o['backend']] = back.get(o['backend'], 0) + 1
    for l in lems: back[l['backend']] = back.get(l['backend'], 0) + 1
    assumptions = list(getattr(m, 'ASSUME', []))
    for r in results: assumptions += ['%s: assumed library model: %s' % (r['name'], x) for x in r['models']]
    for r in results: assumptions += ['%s: %s' % (r['name'], x) for x in r.get('assume', [])]
    seen = set(); assumptions = [x for x in assumptions if not (x in seen or seen.add(x))]
    level = getattr(m, 'LEVEL', 'proof')
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='bin/check %s --tier %s' % (prop, tier), trusted_base=TRUST,
               functions_under_contract=[dict(name=r['name'], function=r['fn'], status=r['status'], paths=r['paths'], obligations=len(r['obls']),
                                              inlined=r['inlined'], secs=r['secs'], where='%s:%s' % (os.path.relpath(r['file'], frontend.REPO) if r['file'] else '', r['line'])) for r in results],
               proved=len(proved), lemmas=[dict(name=l['name'], status=l['status']) for l in lems], by_back_end=back,
               solver_seconds=round(sum(r['stats'].get('time', 0) for r in results), 2), solver_queries=sum(r['stats'].get('queries', 0) for r in results),
               bounded_stand_ins=[dict(name=r['name'], reason=r['reason'][:300], bound=r['bounded']) for r in results if r['status'] != 'proved'],
               replay=[dict(harness=c.get('name'), cases=c.get('cases'), distinct=c.get('distinct'), build_s=c.get('build_s'), run_s=c.get('run_s'), error=c.get('error', '')[:500]) for c in camps],
               samples=[s for c in camps for s in c.get('samples', [])][:12] + [dict(function=r['name'], obligation=o['name'], line=o['line']) for r in results for o in r['obls'] if o['kind'] in ('post', 'inv')][:12])
    cov['evaluations'] = sum(c.get('cases') or 0 for c in camps)
    cov['distinct_nontrivial'] = sum(c.get('distinct') or 0 for c in camps)
    cov['rule'] = '; '.join(c['rule'] for c in camps if c.get('rule')) or 'contract replay on the real code'
    if level == 'other': cov['explanation'] = getattr(m, 'EXPLAIN', '')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d/%d functions proved, %d lemmas, %d replayed cases (%d distinct), %.1fs' % (
        prop, ndis, nob, len(proved), len(results), len(lems), cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    for n in notes: print('NOTE: ' + n)
    if viols:
        d = os.path.join(frontend.BUILD, 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.txt' % (prop, os.getpid()))
        with open(path, 'w') as f:
            f.write('property %s, seed %d, tier %s\n' % (prop, seed, tier))
            for t, real, r in viols:
                f.write('\n%s: %s\n' % ('FAILING INPUT (real code)' if real else 'FAILED OBLIGATION', t))
                if r:
                    for o in r['failed']:
                        f.write('  obligation "%s" [%s] in %s line %s: %s%s\n  goal: %s\n  model:\n%s\n' % (o['name'], o['kind'], o['fn'], o['line'], o['status'], '' if o['exact'] else ' (after a loop cut)', o['goal'], o['model']))
            f.write('\nreproduce: cd /verif && VERIF_SEED=%d bin/check %s --tier %s\n' % (seed, prop, tier))
        real = [v for v in viols if v[1]]
        for v in (real or viols)[:3]: print('  ' + v[0][:600].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if real else ' no-failing-input-found'))
        return 1
    # no verdict at all: neither a proof nor a replayed case
    if not proved and not cov['evaluations']:
        print('ERROR: nothing was decided'); return 3
    return 0
