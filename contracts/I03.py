"""I03: aggregated statistics, as recurrences over the reals that determine count, mean, variance, minimum and maximum."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit
from . import instr, I01, I02
from .instr import Inst, NS, unit

def step(n, m, v, lo, hi, n0, m0, v0, lo0, hi0, x):
    """one more value x: the named parts"""
    k, k0 = z3.ToReal(n), z3.ToReal(n0); r = zr(x)
    return [('the count', n == n0 + 1),
            ('the mean', k * m == k0 * m0 + r),
            ('the variance', k * (v + m * m) == k0 * (v0 + m0 * m0) + r * r),
            ('the minimum', lo == z3.If(n0 == 0, x, z3.If(x < lo0, x, lo0))),
            ('the maximum', hi == z3.If(n0 == 0, x, z3.If(x > hi0, x, hi0)))]
RUN = ('runtime_n', 'runtime_mean', 'runtime_variance', 'runtime_min', 'runtime_max')
CNT = ('n', 'mean', 'variance', 'min', 'max')
BIG = I02.BIG
def setup_exit(E, st):
    a, t, x = I02.setup_exit(True)(E, st); E.exitx = x; c = x.c; i = z3.Int('i')
    st.assume(c.fld(x.rec, 'runtime_n') >= 0, c.fld(x.rec, 'runtime_n') < BIG)
    # the statistics of the counters: none before the first exit, then one of each per counter with at least one value
    v = {n: x.f(n) for n in CNT}
    some = zi(v['mean'].n) > 0
    st.assume(*[zi(v[n].n) == z3.If(some, x.cnt, 0) for n in CNT])
    st.assume(z3.Implies(some, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.cnt), z3.And(v['n'].a[i] >= 1, v['n'].a[i] < BIG)), patterns=[v['n'].a[i]])))
    x.some = some; x.v = v
    return a, t, x
def olds(x, i): return [z3.If(x.some, x.v['n'].a[i], 0)] + [x.v[n].a[i] for n in CNT[1:]]
def post_exit(E, st, out, x):
    if I02.outcome(E, st, out): return
    c = x.c; rec = c.obj(st).f[c.regions].val[x.r]; g = lambda n: x.f(n, rec); i = z3.Int('i')
    ts = I02.clocks(st); E.oblige(st, 'one reading of the clock', len(ts) == 1, 'post')
    d = ts[-1] - x.start
    for nm, f in step(*[c.fld(rec, n) for n in RUN], *[c.fld(x.rec, n) for n in RUN], d): E.oblige(st, '%s of the durations' % nm, f, 'post')
    rs = I02.reads(st); s = st.copy(); s.assume(x.cnt > 0)
    if E.sat(s):
        E.oblige(s, "the counters of the region's own event set are read once", z3.And(z3.BoolVal(len(rs) == 1), rs[0][1] == x.p) if rs else False, 'post')
        if len(rs) == 1:
            s.assume(i >= 0, i < x.cnt); new = {n: g(n) for n in CNT}
            for n in CNT: E.oblige(s, 'one %s per counter' % n, zi(new[n].n) == x.cnt, 'post')
            for nm, f in step(*[new[n].a[i] for n in CNT], *olds(x, i), I02.delta(x, rs[0][2], i)): E.oblige(s, '%s of every counter' % nm, f, 'post')
    s = st.copy(); s.assume(x.cnt == 0)
    if E.sat(s):
        for n in CNT: E.oblige(s, 'no statistics without counters', c.fld(rec, n) == c.fld(x.rec, n), 'post')
    c.rec_same(st, x.r, RUN + CNT); c.others_same(st, x.r)
    c.same(st, c.byname, c.sleep, c.list, c.cpu, c.cuda, c.agg, c.next)
    c.oblige_inv(st, c.own, [c.pos])
def inv_exit(v):
    E = v.eng; x = getattr(E, 'exitx', None); c = E.inst; rs = [e for e in v.entry.events if e[0] == 'read']
    if x is None or not rs: return []
    vals = rs[-1][2]; i = z3.Int('inv_i'); out = []
    loc = [m for m in v.mods if m[0][0] == 'v']
    def rec(st): return c.obj(st).f[c.regions].val[x.r]
    regs_mod = any(m[0] == c.loc.root for m in v.mods)
    if not regs_mod: out += I02.inv_exit(v)
    else:
        f = lambda w, n, e=False: x.f(n, rec(w.entry if e else w.st))
        rng = lambda w: z3.And(i >= 0, i < x.cnt)
        for n in CNT:
            out.append(('one %s per counter' % n, lambda w, n=n: z3.And(zi(f(w, n).n) == zi(f(w, n, True).n), w.k <= x.cnt)))
            out.append(('%s of later counters' % n, lambda w, n=n: z3.ForAll([i], z3.Implies(z3.And(rng(w), i >= w.k), f(w, n).a[i] == f(w, n, True).a[i]))))
        for j in range(5):
            out.append(('%s of earlier counters' % CNT[j], lambda w, j=j: z3.ForAll([i], z3.Implies(z3.And(rng(w), i < w.k),
                        step(*[f(w, n).a[i] for n in CNT], *[f(w, n, True).a[i] for n in CNT], I02.delta(x, vals, i))[j][1]))))
        for n in c.fn:
            if n not in CNT: out.append(('%s stays' % n, lambda w, n=n: c.fld(rec(w.st), n) == c.fld(rec(w.entry), n)))
        y = z3.Int('inv_r')
        out.append(('other regions stay', lambda w: z3.ForAll([y], z3.Implies(y != x.r, c.obj(w.st).f[c.regions].val[y] == c.obj(w.entry).f[c.regions].val[y]))))
        out.append(('the same regions', lambda w: c.obj(w.st).f[c.regions].dom == c.obj(w.entry).f[c.regions].dom))
    return out
def lemmas():
    n, m, v, s, q, x, m1, v1 = z3.Reals('n mean var sum squares x mean1 var1')
    yield ('mean and variance determined by the recurrences (base)', [n == 0, s == 0, q == 0], z3.And(n * m == s, n * (v + m * m) == q))
    yield ('sum and sum of squares after one more value', [n >= 0, n * m == s, n * (v + m * m) == q, (n + 1) * m1 == n * m + x, (n + 1) * (v1 + m1 * m1) == n * (v + m * m) + x * x],
           z3.And((n + 1) * m1 == s + x, (n + 1) * (v1 + m1 * m1) == q + x * x))
    yield ('n times the variance is the sum of squared deviations', [n > 0, n * m == s, n * (v + m * m) == q], n * v == q - 2 * m * s + n * m * m)
PROOFS = [Proof('enter_region (aggregating)', unit, NS + 'enter_region', I02.setup_enter(True), I02.post_enter, config=instr.CFG),
          Proof('exit_region (aggregating)', unit, NS + 'exit_region', setup_exit, post_exit, config=dict(instr.CFG, loopinv=inv_exit, merge=True))]
REPLAY = I01.REPLAY
ASSUME = I02.ASSUME + ['double arithmetic treated as exact arithmetic over the reals']
BUDGET = 300
