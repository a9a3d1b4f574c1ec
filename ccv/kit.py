"""Small helpers shared by the contract files."""
import z3
from .values import *
from . import engine, frontend, stl

def fresh_obj(E, st, t, name='obj', temp=None):
    """a location holding an arbitrary value of class type t; root is not a temporary, so moves and frames are tracked"""
    r = ('o', name)
    st.store[r] = E.fresh(st, t, name)
    st.types[r] = t
    return Loc(r)

def cls_ty(E, f): return E.ty(f['cls'])

def fresh_param(E, st, f, i, name=None):
    p = f['params'][i]
    t = E.ty(p['t'])
    if t.isref(): return fresh_obj(E, st, t.e, name or p['n'] or 'p%d' % i)
    return E.fresh(st, t, name or p['n'] or 'p%d' % i)

def map_eq(a, b): return z3.And(a.dom == b.dom, zi(a.size) == zi(b.size), map_val_eq(a, b))
def map_val_eq(a, b):
    """equal on the domain"""
    if a.val.eq(b.val): return z3.BoolVal(True)
    x = z3.Const(fresh_name('k'), a.dom.domain())
    return z3.ForAll([x], z3.Implies(a.dom[x], a.val[x] == b.val[x]))
def map_is_update(E, new, old, k, v):
    """new == old with k -> v (sizes aside)"""
    x = z3.Const(fresh_name('k'), old.dom.domain())
    return z3.And(new.dom[k], new.val[k] == v, z3.ForAll([x], z3.Implies(x != k, z3.And(new.dom[x] == old.dom[x], z3.Implies(old.dom[x], new.val[x] == old.val[x])))))

def vec_same(E, a, b):
    i = z3.Int(fresh_name('i'))
    return z3.And(zi(a.n) == zi(b.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(a.n)), a.a[i] == b.a[i])))
