"""One proof: a function of /repo under contract, executed symbolically from a symbolic pre-state."""
import os, time, traceback
import z3
from .values import *
from . import engine, frontend, solver, stl

class Ctx:
    """what setup() hands to post()"""
    def __init__(self, **kw): self.__dict__.update(kw)

class Proof:
    """name; unit() -> Unit; fn: qualified name; setup(E, st) -> (args, this, ctx);
    post(E, st, out, ctx) states the postcondition with E.oblige; covers: outcome kinds that must be reachable"""
    def __init__(self, name, unit, fn, setup, post, nparams=None, covers=('return',), strmode='seq', config=None,
                 contracts=None, unroll=0, pick=None, bmc=3, bmc_setup=None, doc='', nobmc=False, custom=None, assume=()):
        self.name = name; self.unit = unit; self.fn = fn; self.setup = setup; self.post = post; self.nparams = nparams
        self.covers = covers; self.strmode = strmode; self.config = config or {}; self.contracts = contracts or {}
        self.unroll = unroll; self.pick = pick; self.bmc = bmc; self.bmc_setup = bmc_setup; self.doc = doc; self.nobmc = nobmc
        self.custom = custom; self.assume = list(assume)

class Result:
    def __init__(self, name):
        self.name = name; self.status = None; self.obls = []; self.reason = ''; self.bounded = None
        self.models = set(); self.inlined = set(); self.secs = 0; self.failed = []; self.paths = 0; self.line = 0; self.file = ''
    def proved(self): return self.status == 'proved'

def out_kind(out):
    if isinstance(out, Thrown): return 'throw'
    if isinstance(out, Exited): return 'exit'
    return 'return'

def _run(p, bmc=None, budget=None):
    solver.FORK = bool(p.config.get('fork'))
    if p.custom: return p.custom(p, bmc, budget)
    u = p.unit()
    cands = u.fns(p.fn)
    if p.nparams is not None: cands = [f for f in cands if len(f['params']) == p.nparams]
    if p.pick: cands = [f for f in cands if p.pick(u, f)]
    if len(cands) != 1: raise frontend.ExtractionError('%d definitions of %s' % (len(cands), p.fn))
    f = cands[0]
    cfg = dict(p.config)
    if budget: cfg['budget'] = budget
    E = engine.Engine(u, p.strmode, p.unroll, bmc, p.contracts, cfg)
    E.proof = p
    st = engine.State()
    # a root frame so that setup can allocate
    E.frame = engine.Frame({'qn': p.fn, 'd': -1, 'params': [], 'ret': f['ret']}, None)
    E.frame.__dict__['locals'] = set()
    args, this, ctx = (p.bmc_setup if (bmc is not None and p.bmc_setup) else p.setup)(E, st)
    ctx.fnode = f
    if not E.sat(st): raise RuntimeError('%s: the precondition is contradictory' % p.name)
    reached = {}; ends = {}
    if f.get('inits') is not None or f.get('ctor'):
        t = ctx.cls
        gen = E.construct(st, t, f, args, this)
    else:
        gen = E.call_body(st, f, args, this)
    n = 0
    for s, out in gen:
        n += 1
        k = out_kind(out)
        reached[k] = reached.get(k, 0) + 1
        if bmc is None: ends.setdefault(k, []).append(list(s.pc))
        E.frame.fn = f
        E.post_line = E.line
        p.post(E, s, out, ctx)
    if bmc is None and not any(o.status != 'proved' for o in E.obls):
        # vacuity guard: each outcome that must be possible has a path that is not contradictory
        E.probe_s = 60
        for k in p.covers:
            if k in ends and not E.reachable(ends[k]): E.vacuous.append('no path to outcome "%s" can be taken' % k)
    return E, reached, n, f

def run(p, budget=150, bmc_budget=60):
    t0 = time.time()
    solver.SCALE = 1
    r, again = attempt(p, budget)
    if again and time.time() - t0 < budget * 0.8:
        # a query ran into its time limit: once more with more time for each
        solver.SCALE = 4
        r2, _ = attempt(p, budget * 1.5)
        if r2.status != 'undecided': r = r2
        solver.SCALE = 1
    return finish(p, r, t0, bmc_budget)

def attempt(p, budget):
    r = Result(p.name); E = None
    try:
        E, reached, n, f = _run(p, None, budget)
        r.obls = E.obls; r.models = E.used_models; r.inlined = E.inlined; r.paths = n
        r.file = f.get('file', ''); r.line = f.get('l', 0)
        missing = [c for c in p.covers if c not in reached]
        bad = [o for o in E.obls if o.status != 'proved']
        post = [o for o in E.obls if o.kind == 'post']
        if missing: r.status, r.reason = 'undecided', 'vacuity guard: no path reaches ' + ', '.join(missing)
        elif not post: r.status, r.reason = 'undecided', 'vacuity guard: no postcondition obligation was generated'
        elif not bad and E.vacuous: r.status, r.reason = 'undecided', 'vacuity guard: ' + '; '.join(sorted(set(E.vacuous))[:3])
        elif not bad: r.status = 'proved'
        else:
            r.failed = bad
            ref = [o for o in bad if o.status == 'refuted' and o.exact]
            r.status = 'refuted' if ref else 'undecided'
            r.reason = '; '.join('%s (%s, line %s)' % (o.name, o.status if o.exact else 'after a loop cut', o.line) for o in bad[:4])
    except (Unsupported, frontend.ExtractionError) as e:
        r.status, r.reason = 'undecided', '%s: %s' % (type(e).__name__, e)
        if os.environ.get('CCV_TRACE'): traceback.print_exc()
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError, AssertionError) as e:
        r.status, r.reason = 'undecided', 'outside the verified subset (%s: %s)' % (type(e).__name__, str(e)[:200])
        if os.environ.get('CCV_TRACE'): traceback.print_exc()
    again = r.status == 'undecided' and (any(o.status == 'unknown' for o in r.failed) or bool(r.failed) and any(getattr(x, 'unsure', False) for x in [E] if x is not None))
    return r, again

def finish(p, r, t0, bmc_budget):
    if r.status == 'undecided' and not p.nobmc and p.bmc is not None:
        # bounded stand-in: the same obligations with every loop unrolled p.bmc times
        try:
            E, reached, n, f = _run(p, p.bmc, bmc_budget)
            bad = [o for o in E.obls if o.status == 'refuted' and o.exact]
            r.bounded = dict(unwind=p.bmc, obligations=len(E.obls), undecided=len([o for o in E.obls if o.status == 'unknown']))
            if bad and not getattr(E, 'imprecise', False):
                r.status = 'refuted'; r.failed = bad
                r.reason = 'bounded unrolling: ' + '; '.join('%s (line %s)' % (o.name, o.line) for o in bad[:4])
        except Exception as e:
            r.bounded = dict(unwind=p.bmc, error='%s: %s' % (type(e).__name__, str(e)[:160]))
    r.secs = time.time() - t0
    return r

def model_text(o, limit=40):
    if o.model is None: return '(no model)'
    if isinstance(o.model, solver.TextModel): return o.model.text
    out = []
    for d in list(o.model.decls())[:limit]:
        try: out.append('  %s = %s' % (d.name(), str(o.model[d])[:200]))
        except Exception: pass
    return '\n'.join(sorted(out))
