"""I06: metric updates, as recurrences over the reals (I03) per name."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit
from . import instr, I01, I02, I03, I07
from .instr import Inst, NS, unit

ST = tuple('static_counters_' + n for n in ('n', 'mean', 'variance', 'min', 'max'))
def setup(E, st):
    c = Inst(E, st); E.inst = c
    r = z3.Int('region_id'); name = z3.Const('metric', S); x = z3.Real('value'); st.assume(r >= 0, r < 1 << 64, c.R0.dom[r])
    rec = c.R0.val[r]; f = lambda n, rc=rec: E.c.dec(c.fld(rc, n), c.fields[n])
    # the five tables know the same names, with at least one value each
    k = z3.Const('k', S); N = f(ST[0])
    for n in ST[1:]: st.assume(f(n).dom == N.dom, zi(f(n).size) == zi(N.size))
    st.assume(z3.ForAll([k], z3.Implies(N.dom[k], z3.And(N.val[k] >= 1, N.val[k] < I02.BIG)), patterns=[N.dom[k]]))
    return [r, CStr(False, name), x], c.loc, Ctx(c=c, r=r, name=name, x=x, f=f)
def post(E, st, out, x):
    if I02.outcome(E, st, out): return
    c = x.c; rec = c.obj(st).f[c.regions].val[x.r]; k = z3.Const('k2', S); new = [x.f(n, rec) for n in ST]; old = [x.f(n) for n in ST]
    have = old[0].dom[x.name]
    for n, a, b in zip(ST, new, old):
        E.oblige(st, '%s: the name is known afterwards' % n, a.dom[x.name], 'post')
        E.oblige(st, '%s: other names are unaffected' % n, z3.Implies(k != x.name, z3.And(a.dom[k] == b.dom[k], z3.Implies(b.dom[k], a.val[k] == b.val[k]))), 'post')
    n0 = z3.If(have, old[0].val[x.name], 0)
    for nm, g in I03.step(*[a.val[x.name] for a in new], n0, *[b.val[x.name] for b in old[1:]], x.x): E.oblige(st, '%s of the metric' % nm, g, 'post')
    c.rec_same(st, x.r, ST); c.others_same(st, x.r)
    c.same(st, c.byname, c.sleep, c.list, c.cpu, c.cuda, c.agg, c.next)
    c.oblige_inv(st, c.own, [c.pos])

lemmas = I03.lemmas
PROOFS = [Proof('provided_metric', unit, NS + 'provided_metric', setup, post, config=dict(instr.CFG, merge=True))] + \
         [p for p in I07.PROOFS if p.name in ('__daisy_instrumentation_increment', '__daisy_instrumentation_metric')]
REPLAY = I01.REPLAY
ASSUME = instr.ASSUME + ['double arithmetic treated as exact arithmetic over the reals']
