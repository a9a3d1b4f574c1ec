"""C01: create_and_capture_inline."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv.stl import PROD
from ccv import kit
from . import cap
from .cap import unit, NS

def setup(E, st):
    f = E.u.fn(NS + 'create_and_capture_inline')
    io = cap.Store(E, st, f)
    dl, dims = cap.dims_arg(E, st)
    n = PROD(dims.a, zi(dims.n)); cap.product_setup(E, st, dims)
    src, bytes_ = cap.source(E, st, n)
    arg, pt, e, after = z3.Int('arg_idx'), z3.Int('primitive_type'), z3.Const('element_id', S), z3.Bool('after')
    null = z3.Bool('src_null')
    st.assume(n >= 0, n < 1 << 63, z3.Implies(null, n == 0), zi(dims.n) >= 1, arg >= -(1 << 31), arg < 1 << 31, pt >= 0, pt < 19)
    args = []
    for p in f['params']:
        t = E.ty(p['t'])
        args.append({'int': None}.get('x'))
    ints = iter([arg, pt])
    args = []
    for p in f['params']:
        t = E.ty(p['t']); u = t.e if t.isref() else t
        if u.cls() == 'vec': args.append(dl)
        elif u.cls() == 'string': args.append(e)
        elif u.isbool(): args.append(after)
        elif u.isint(): args.append(next(ints))
        elif u.isptr(): args.append(PtrV(null, src, z3.IntVal(0)))
        else: raise Unsupported('parameter of type ' + t.key())
    return args, io.loc, Ctx(io=io, arg=arg, pt=pt, e=e, after=after, dims=dims, n=n, bytes=bytes_, src=src, dl=dl)

def post(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'an inline capture does not fail', False, 'post'); return
    io = ctx.io; k = io.key(ctx.arg, ctx.after)
    E.oblige(st, 'success is reported', E.boolean(out), 'post')
    r = io.meta(E, st, ctx.e, k, ctx.arg, ctx.after, ctx.pt, ctx.dims)
    E.oblige(st, 'no external file', io.field(r, 'ext_file') == 0, 'post')
    a = io.field(r, 'data'); i = z3.Int('i')
    E.oblige(st, 'the bytes have storage of their own', z3.And(a >= io.nextaddr0, a > 0), 'post')
    cell = io.heap(st, 'data')[a]; dt = cell.sort()
    E.oblige(st, 'as many bytes as the product of the dimensions', dt.accessor(0, 1)(cell) == ctx.n, 'post')
    E.oblige(st, 'exactly the source bytes', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), dt.accessor(0, 0)(cell)[i] == ctx.bytes[i])), 'post')
    now = E.read(st, ctx.src)
    E.oblige(st, 'the source is only read', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), now.a[i] == ctx.bytes[i])), 'post')
    io.frame(st, ctx.e, k)

PROOFS = [Proof('create_and_capture_inline', unit, NS + 'create_and_capture_inline', setup, post, config=cap.PCFG)]
REPLAY = [dict(src='c01.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp'])]
ASSUME = ['the product of the dimensions is below 2^63 and the source holds that many bytes; the primitive type is one of the enumeration',
          'unordered_map, vector, shared_ptr, memcpy, accumulate behave as documented (record, array and heap-cell models)',
          'memory allocation succeeds']
