"""H02: is_number, parse_number_unsigned, parse_number_signed."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit
from ccv.stl import text_classes, IS_DEC, IS_NEG_DEC, DEC_VALUE, NO_NUMBER

def unit(): return frontend.load('sdfg/include/sdfg/helpers/helpers.h', wrapper='#include <sdfg/helpers/helpers.h>\n#include <iostream>\n', roots=[frontend.REPO + '/', frontend.BUILD + '/'])

def code(s, i): return z3.StrToCode(z3.SubString(s, i, 1))
def digit(s, i): return z3.And(code(s, i) >= 48, code(s, i) <= 57)
def setup(E, st):
    s = z3.Const('s', S)
    st.assume(z3.Length(s) <= (1 << 60), *text_classes(s))
    return [s], None, Ctx(s=s)
def post_is(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'is_number does not fail', False, 'post'); return
    s = ctx.s; i = z3.Int('i'); n = z3.Length(s)
    alld = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), digit(s, i)))
    r = E.boolean(out)
    E.oblige(st, 'accepted text is non-empty', z3.Implies(zb(r), n >= 1), 'post')
    E.oblige(st, 'accepted text is all digits', z3.Implies(zb(r), alld), 'post')
    E.oblige(st, 'rejected text is empty or has a non-digit', z3.Implies(z3.Not(zb(r)), z3.Or(n == 0, z3.Not(alld))), 'post')

def inv_is(v):
    s = z3.Const('s', S); out = []; i = z3.Int('i')
    P = []
    for r, x in list(v.entry.store.items()):
        if r[0] == 'v' and isinstance(x, IterV) and x.pos is not None and (r, ()) in v.mods: P.append(lambda w, r=r: zi(w.st.store[r].pos))
        elif r[0] == 'v' and isinstance(r[1], str): P.append(lambda w, r=r: zi(w.st.store[r]))
    for r, n in v.ints(True): P.append(lambda w, r=r: zi(w.st.store[r]))
    for p in P:
        out.append(('position within the text', lambda w, p=p: z3.And(p(w) >= 0, p(w) <= z3.Length(s))))
        out.append(('only digits so far', lambda w, p=p: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p(w)), digit(s, i)))))
    return out
def var_is(v):
    s = z3.Const('s', S); out = []
    for r, x in list(v.st.store.items()):
        if r[0] == 'v' and isinstance(x, IterV) and x.pos is not None: out.append(z3.Length(s) - zi(x.pos))
        elif r[0] == 'v' and isinstance(r[1], str) and (isinstance(x, int) or isz(x)): out.append(z3.Length(s) - zi(x))
    for r, n in v.ints(True): out.append(z3.Length(s) - zi(v.st.store[r]))
    return out

def mkparse(fn, lo, hi, signed):
    def post(E, st, out, ctx):
        s = ctx.s
        thrown = isinstance(out, Thrown)
        val = DEC_VALUE(s)
        E.oblige(st, 'false is 0', z3.Implies(s == 'false', z3.BoolVal(False) if thrown else zi(out) == 0), 'post')
        E.oblige(st, 'true is 1', z3.Implies(s == 'true', z3.BoolVal(False) if thrown else zi(out) == 1), 'post')
        dec = IS_DEC(s)
        E.oblige(st, 'decimal text that fits is parsed to its value', z3.Implies(z3.And(dec, val <= hi), z3.BoolVal(False) if thrown else zi(out) == val), 'post')
        E.oblige(st, 'decimal text beyond the range is an error', z3.Implies(z3.And(dec, val > hi), z3.BoolVal(thrown)), 'post')
        if signed:
            v = DEC_VALUE(s); neg = IS_NEG_DEC(s)
            E.oblige(st, 'negative decimal text that fits is parsed to its value', z3.Implies(z3.And(neg, -v >= lo), z3.BoolVal(False) if thrown else zi(out) == -v), 'post')
            E.oblige(st, 'negative decimal text beyond the range is an error', z3.Implies(z3.And(neg, -v < lo), z3.BoolVal(thrown)), 'post')
        bad = NO_NUMBER(s)
        E.oblige(st, 'text that does not begin with a number is an error', z3.Implies(z3.And(bad, s != 'false', s != 'true'), z3.BoolVal(thrown)), 'post')
    return Proof(fn.split('::')[-1], unit, fn, setup, post)

PROOFS = [Proof('is_number', unit, 'sdfg::helpers::is_number', setup, post_is, config=dict(loopinv=inv_is, variant=var_is)),
          mkparse('sdfg::helpers::parse_number_unsigned', 0, (1 << 64) - 1, False),
          mkparse('sdfg::helpers::parse_number_signed', -(1 << 63), (1 << 63) - 1, True)]
REPLAY = [dict(src='h02.cpp')]
ASSUME = ['std::stoull / std::stoll return the value of decimal text (for stoll also after a minus), throw out_of_range beyond the type and invalid_argument for text that begins with no number (assumed contract of the library, over uninterpreted predicates for these text classes; the replay runs the real ones)',
          'isdigit in the C locale; its argument may be a negative char (glibc table)']
