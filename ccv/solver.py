"""Back ends: z3 (python API), cvc5 as second opinion."""
import os, subprocess, tempfile, threading, time
import z3
from . import nra

z3.set_param("warning", False)
z3.set_param("memory_max_size", 6000)
STATS = dict(queries=0, time=0.0, z3_proved=0, cvc5_proved=0)
TIMEOUT = int(os.environ.get('CCV_TIMEOUT_MS', '8000'))
CVC5 = '/opt/veriftools/bin/cvc5' if os.path.exists('/opt/veriftools/bin/cvc5') else 'cvc5'

def _hasq(f, _memo={}):
    k = f.get_id()
    st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return not x.is_lambda()
        st.extend(x.children())
    return False

_qmemo = {}
def hasq(f):
    i = f.get_id()
    if i not in _qmemo or not _qmemo[i][0].eq(f):
        _qmemo[i] = (f, _hasq(f))
    return _qmemo[i][1]

_vmemo = {}
def symbols(f):
    """uninterpreted constants and functions of a formula"""
    i = f.get_id()
    if i in _vmemo and _vmemo[i][0].eq(f): return _vmemo[i][1]
    out = set(); st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add((x.decl().name(), x.num_args()))
            st.extend(x.children())
    _vmemo[i] = (f, out)
    return out

def cone(pc, goals):
    """the part of pc that shares symbols with the goals, transitively (the rest is satisfiable on its own)"""
    syms = set()
    for g in goals: syms |= symbols(g)
    rest = [(f, symbols(f)) for f in pc]; out = []
    while True:
        hit = [x for x in rest if not x[1] or x[1] & syms]
        if not hit: return out
        rest = [x for x in rest if not (not x[1] or x[1] & syms)]
        for f, v in hit: out.append(f); syms |= v

SCALE = 1   # a second attempt takes its time
FORK = False       # solver calls in killable children: z3 does not always honour its time limit
import ctypes
try: _prctl = ctypes.CDLL(None).prctl
except Exception: _prctl = None
def _die_with_parent():
    if _prctl: _prctl(1, 9, 0, 0, 0)      # PR_SET_PDEATHSIG: a solver never outlives the check that asked
class TextModel:
    def __init__(self, t): self.text = t
    def decls(self): return []
def _children(jobs, timeout):
    """run jobs (functions returning (answer, text)) in forked children; the first definite answer wins"""
    import select, signal
    kids = {}; end = time.time() + timeout / 1000
    for j in jobs:
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                _die_with_parent()
                os.close(r); a, t = j(); os.write(w, (a + '\n' + t)[:20000].encode(errors='replace'))
            except BaseException: pass
            os._exit(0)
        os.close(w); kids[r] = pid
    out = ('unknown', 'time limit')
    try:
        while kids:
            left = end - time.time()
            if left <= 0: break
            for r in select.select(list(kids), [], [], left)[0]:
                d = b''
                while True:
                    x = os.read(r, 65536)
                    if not x: break
                    d += x
                os.close(r); os.waitpid(kids.pop(r), 0)
                a, _, t = d.decode(errors='replace').partition('\n')
                if a in ('sat', 'unsat'): out = (a, t); return out
                if t: out = ('unknown', t)
        return out
    finally:
        for r, pid in kids.items():
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
            os.close(r); os.waitpid(pid, 0)
def _job(fs, cfg={}, trust_sat=True, model=False):
    def run():
        z3.set_param('memory_max_size', 3000)
        s = z3.Solver()
        for k, v in cfg.items(): s.set(k, v)
        for f in fs: s.add(f)
        r = s.check()
        if r == z3.unsat: return 'unsat', ''
        if r == z3.sat and trust_sat: return 'sat', '\n'.join('  %s = %s' % (d.name(), str(s.model()[d])[:200]) for d in list(s.model().decls())[:40]) if model else ''
        return 'unknown', s.reason_unknown()
    return run
def _check_forked(pc, neg, timeout, use_cvc5):
    fs = list(pc) + [neg]
    non = nra.nonlinear(neg)
    if non and timeout > QUICK: timeout = max(timeout, 15000)
    def algebra():
        if nra.prove(pc, z3.simplify(z3.Not(neg)), timeout): return ('unsat', 'nlsat')
        return ('unknown', '')
    r = _children([_job(fs, model=True)] + ([algebra] if non else []), min(QUICK, timeout))
    if r[0] == 'unknown' and timeout > QUICK:
        jobs = [_job(fs, model=True), _job(fs, {'smt.array.extensional': False}, False), _job(fs, {'smt.arith.solver': 2}, model=True), _job(fs, {'smt.random_seed': 7}, model=True)]
        c = None
        if non: jobs.append(algebra)
        if use_cvc5:
            s = z3.Solver()
            for f in fs: s.add(f)
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + s.to_smt2())
            def cvc():
                p = subprocess.run([CVC5, '--tlimit=%d' % timeout, '--strings-exp', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout / 1000 + 1, preexec_fn=_die_with_parent)
                return ('unsat', 'cvc5') if p.stdout.strip().split('\n')[-1] == 'unsat' else ('unknown', '')
            jobs.append(cvc)
        try: r = _children(jobs, timeout)
        finally:
            if use_cvc5: os.unlink(f.name)
    if r[0] == 'unsat':
        b = 'cvc5' if r[1] == 'cvc5' else 'z3'; STATS[b + '_proved'] += 1
        return ('proved', b)
    if r[0] == 'sat': return ('refuted', TextModel(r[1]))
    return r

def feasible(pc, timeout=1500, goals=None):
    """May pc (and goals) hold?  Quantified facts are dropped, and so is what does not concern the goals: an
    over-approximation, hence sound."""
    STATS['queries'] += 1
    t = time.time()
    s = z3.Solver(); s.set('timeout', timeout)
    pc = [f for f in pc if not hasq(f)]
    if goals is not None:
        goals = [g for g in goals if not hasq(g)]
        pc = cone(pc, goals) + goals
    if FORK:
        r = _children([_job(pc)], timeout)[0]
        STATS['time'] += time.time() - t
        return r != 'unsat'
    for f in pc: s.add(f)
    r = s.check()
    STATS['time'] += time.time() - t
    return r != z3.unsat

QUICK = 1500
def _z3(pc, neg, timeout, cfg={}):
    s = z3.Solver(); s.set('timeout', timeout)
    for k, v in cfg.items():
        try: s.set(k, v)
        except z3.Z3Exception: pass
    for f in pc: s.add(f)
    s.add(neg)
    return s

def check(pc, goal, timeout=None, use_cvc5=True, tactics=()):
    """Is pc => goal valid?  returns ('proved', backend) / ('refuted', model) / ('unknown', reason).
    z3 alone for a moment; then z3 and cvc5 side by side; then z3 with other settings"""
    timeout = int((timeout or TIMEOUT) * SCALE)
    STATS['queries'] += 1
    t = time.time()
    try:
        neg = z3.Not(goal)
        if FORK: return _check_forked(pc, neg, timeout, use_cvc5)
        s = _z3(pc, neg, min(QUICK, timeout))
        r = s.check()
        if r == z3.unknown and nra.nonlinear(goal) and nra.prove(pc, z3.simplify(goal), timeout):
            STATS['z3_proved'] += 1; return ('proved', 'z3')
        if r == z3.unknown and timeout > QUICK:
            s = _z3(pc, neg, timeout)
            second = Cvc5(s, timeout) if use_cvc5 else None
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if second is not None:
                if second.finish(r == z3.unknown) and r == z3.unknown:
                    STATS['cvc5_proved'] += 1; return ('proved', 'cvc5')
            if r == z3.unknown and use_cvc5:
                for cfg in [{'smt.arith.solver': 2}, {'smt.random_seed': 7}]:
                    s = _z3(pc, neg, timeout, cfg)
                    r = s.check()
                    if r != z3.unknown: break
        if r == z3.unsat:
            STATS['z3_proved'] += 1
            return ('proved', 'z3')
        if r == z3.sat: return ('refuted', s.model())
        return ('unknown', s.reason_unknown())
    finally:
        STATS['time'] += time.time() - t

class Cvc5:
    """a cvc5 run beside z3; its answer unsat stops z3"""
    def __init__(self, solver, timeout):
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + solver.to_smt2())
        self.name = f.name; self.answer = None; self.lock = threading.Lock(); self.z3_running = True
        self.p = subprocess.Popen([CVC5, '--tlimit=%d' % timeout, '--strings-exp', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.timeout = timeout
        self.th = threading.Thread(target=self.wait, args=(solver.ctx,)); self.th.start()
    def wait(self, ctx):
        try: out, _ = self.p.communicate(timeout=self.timeout / 1000 + 5)
        except Exception: self.p.kill(); out = self.p.communicate()[0] or ''
        self.answer = out.strip().split('\n')[-1] if out.strip() else 'error'
        with self.lock:
            if self.answer == 'unsat' and self.z3_running: ctx.interrupt()
    def finish(self, wanted):
        with self.lock: self.z3_running = False
        if not wanted: self.p.kill()
        self.th.join(); os.unlink(self.name)
        return self.answer == 'unsat'
