"""M01: __daisy_sym_pow equals exact exponentiation."""
import itertools
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend

WRAP = '#include "rtl/include/daisy_rtl/daisy_rtl.h"\n'
def unit():
    return frontend.load('rtl/include/daisy_rtl/daisy_rtl.h', wrapper='#include <daisy_rtl/daisy_rtl.h>\n')

POW = z3.Function('pow', I, I, I)      # exact integer power, exponent >= 0
def defn(b, e):
    return [POW(b, z3.IntVal(0)) == 1, z3.Implies(e >= 0, POW(b, e + 1) == b * POW(b, e))]

def lemmas():
    b, e, x, n = z3.Ints('b e x n')
    sq = lambda e: POW(b, 2 * e) == POW(b * b, e)
    out = []
    out.append(('square lemma, base', [*defn(b, e), *defn(b * b, e)], sq(z3.IntVal(0))))
    out.append(('square lemma, step', [e >= 0, sq(e), *defn(b, 2 * e), *defn(b, 2 * e + 1), *defn(b * b, e)], sq(e + 1)))
    ge = lambda e: z3.And(POW(x, e) >= 1, z3.Implies(e >= 1, POW(x, e) >= x))
    out.append(('growth lemma, base', [x >= 1, *defn(x, e)], ge(z3.IntVal(0))))
    out.append(('growth lemma, step', [x >= 1, e >= 0, ge(e), *defn(x, e), POW(x, e) * x >= x], ge(e + 1)))
    out.append(('growth lemma, product', [x >= 1, n >= 1], n * x >= x))
    out.append(('zero lemma', [e >= 0, x == 0, *defn(x, e)], POW(x, e + 1) == 0))
    out.append(('no square is 2^31 (small)', [x >= -46340, x <= 46340], x * x <= 46340 * 46340))
    out.append(('no square is 2^31 (large)', [z3.Or(x >= 46341, x <= -46341)], x * x >= 46341 * 46341))
    return out

def facts(b, e):
    """instances of the definitions and lemmas at (b, e)"""
    h = e / 2
    return [POW(b, z3.IntVal(0)) == 1,
            z3.Implies(e >= 0, POW(b, 2 * h) == POW(b * b, h)),
            z3.Implies(e >= 1, POW(b, e) == b * POW(b, e - 1)),
            e == 2 * h + e % 2,
            z3.Implies(z3.And(e >= 0, e % 2 == 0), POW(b, e) == POW(b * b, h)),
            z3.Implies(z3.And(e >= 0, e % 2 == 1), POW(b, e) == b * POW(b * b, h)),
            z3.Implies(z3.And(b != 0, h >= 0), POW(b * b, h) >= 1),
            z3.Implies(z3.And(b != 0, h >= 1), POW(b * b, h) >= b * b),
            z3.Implies(z3.And(b == 0, e >= 1), POW(b, e) == 0),
            z3.Implies(b != 0, b * b >= 1),
            b * b != 2 ** 31]

def setup(E, st):
    b, e = z3.Int('base'), z3.Int('exp')
    lo, hi = -2 ** 31, 2 ** 31 - 1
    st.assume(b >= lo, b <= hi, e >= lo, e <= hi)
    P = POW(b, e)
    st.assume(z3.Implies(e >= 0, z3.And(P >= lo, P <= hi)))
    st.assume(*facts(b, e))
    return [b, e], None, Ctx(b=b, e=e, P=P)

def post(E, st, out, ctx):
    E.oblige(st, 'a negative exponent gives 0', z3.Implies(ctx.e < 0, zi(out) == 0), 'post')
    E.oblige(st, 'the result is the exact power', z3.Implies(ctx.e >= 0, zi(out) == ctx.P), 'post')

def prodbound(r, b, e, P):
    """instances of: p >= 1, |m| <= |m*p|"""
    h = e / 2
    p = POW(b * b, h)
    m1 = r * b
    out = []
    for m in (m1, r):
        out += [z3.Implies(z3.And(p >= 1, m >= 0), m * p >= m), z3.Implies(z3.And(p >= 1, m <= 0), m * p <= m),
                z3.Implies(z3.And(p >= b * b, p >= 1, m >= 1), m * p >= b * b), z3.Implies(z3.And(p >= b * b, p >= 1, m <= -1), m * p <= -(b * b))]
    out += [r * (b * p) == m1 * p]
    return out

def loopinv(v):
    ints = [r for r, n in v.ints()]
    P = POW(z3.Int('base'), z3.Int('exp'))
    out = []
    for r, b, e in itertools.permutations(ints, 3):
        out.append(('result * base^exp = base0^exp0', lambda w, r=r, b=b, e=e: zi(w.st.store[r]) * POW(zi(w.st.store[b]), zi(w.st.store[e])) == P))
    for r in ints:
        out.append(('nonnegative', lambda w, r=r: zi(w.st.store[r]) >= 0))
        out.append(('zero only for zero base', lambda w, r=r: (zi(w.st.store[r]) != 0) == (z3.Int('base') != 0)))
        out.append(('nonzero for nonzero base', lambda w, r=r: z3.Implies(z3.Int('base') != 0, zi(w.st.store[r]) != 0)))
    return out

def loop_facts(v):
    ints = [v.st.store[r] for r, n in v.ints() if (r, ()) in v.mods]
    out = []
    for r, b, e in itertools.permutations([zi(x) for x in ints], 3):
        out += facts(b, e) + prodbound(r, b, e, None)
    return out

def variant(v):
    # the exponent halves
    c = [zi(v.st.store[r]) for r, n in v.ints(True) if r[1] == v.eng.frame.fn['params'][1]['d']]
    return c

PROOFS = [Proof('__daisy_sym_pow', unit, '__daisy_sym_pow', setup, post,
                config=dict(loopinv=loopinv, loop_facts=loop_facts, variant=variant), bmc=None)]

REPLAY = [dict(src='m01.cpp')]
ASSUME = ['the power function is defined by pow(b,0)=1, pow(b,e+1)=b*pow(b,e) over the mathematical integers; the lemmas used about it are discharged by induction on every run',
          'int is 32-bit two\'s complement; every signed operation carries an overflow obligation']
