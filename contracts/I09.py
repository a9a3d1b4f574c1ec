"""I09: lock discipline of the instrumentation state, from the public C operations inwards (helpers inlined)."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit, engine
from . import instr, I01
from .instr import Inst, NS, unit

ROOTS = ['__daisy_instrumentation_' + n for n in ('init', 'enter', 'exit', 'finalize', 'increment', 'metric')]
def locks(fn):
    def go(p, bmc, budget):
        u = unit(); f = u.fn(fn)
        cfg = dict(instr.CFG, loopinv=None, no_invariants=True, feas_ms=150, models={'get_daisy_state': I01.m_state}, budget=budget or 120)
        E = engine.Engine(u, 'seq', 0, bmc, {}, cfg)
        # which path is possible does not matter for the discipline: every path is taken
        E.sat = lambda s, *fs: not any(g is False or (g is not True and z3.is_false(z3.simplify(zb(g)))) for g in fs)
        E.fit = lambda s, e, ty, signed_ub=None: e
        st = engine.State()
        E.frame = engine.Frame({'qn': fn, 'd': -1, 'params': [], 'ret': f['ret']}, None); E.frame.__dict__['locals'] = set()
        c = Inst(E, st, inv=False); E.inst = c
        tables = (c.regions, c.byname, c.sleep, c.list, c.next)
        args = [PtrV(z3.Bool('no_metadata'), kit.fresh_obj(E, st, c.MT, 'metadata')) if E.ty(q['t']).isptr() and not E.ty(q['t']).e.ischar() else kit.fresh_param(E, st, f, i) for i, q in enumerate(f['params'])]
        seen = {}
        def hook(E, s, loc, write):
            if loc.root == c.loc.root and loc.path and loc.path[0][0] == 'f' and loc.path[0][1] in tables:
                seen.setdefault((E.frame.fn['qn'], E.line, loc.path[0][1]), set()).add(frozenset(s.ghost.get('locks', ())))
        E.access_hook = hook
        E.mute = 1; ends = []
        for s, out in E.call_body(st, f, args, None): ends.append((s, out))
        E.mute = 0; E.access_hook = None; E.frame.fn = f
        locks = frozenset.intersection(*[l for ls in seen.values() for l in ls]) if seen else frozenset()
        ok = [k for k in locks if str(c.loc.root) in str(k) or 'state' in str(k)]
        for (q, line, fld), ls in sorted(seen.items(), key=str):
            E.line = line; E.oblige(engine.State(), '%s: %s is used under the lock of the state' % (q.split('::')[-1], fld), bool(ok), 'post')
        for s, out in ends:
            if not isinstance(out, Exited): E.oblige(engine.State(), 'the lock is released at the end', not s.ghost.get('locks'), 'post')
        E.oblige(engine.State(), 'the lock is not taken twice', not getattr(E, 'relocks', []), 'post')
        E.oblige(engine.State(), 'the tables are used', bool(seen), 'post')
        return E, {'return': 1}, len(ends), f
    return go
PROOFS = [Proof(fn, unit, fn, None, None, custom=locks(fn), nobmc=True, config=dict(fork=True)) for fn in ROOTS]
REPLAY = [dict(src='instr_t.cpp', repo=['rtl/src/instrumentation.cpp'], so=['fakepapi.c'], san='thread', flags=['-pthread'], libs=['-ldl', '-pthread'])]
ASSUME = ['exclusive access is proved as a lock discipline (the one mutex of the state is held at every access to the shared tables); that a mutex serialises its critical sections is the contract of the library',
          'construction of the state is serialised by the language (function-local static), its destruction happens at process exit']
