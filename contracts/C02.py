"""C02: create_and_capture_to_file, write_capture_to_file, write_data_to_raw_file."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv.stl import PROD, fs
from ccv import kit
from . import cap
from .cap import unit, NS

def file_content(E, st, path, n, bytes_):
    g = fs(st); i = z3.Int(fresh_name('i'))
    return z3.And(g['fs_x'][path], g['fs_n'][path] == n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), g['fs_a'][path][i] == bytes_[i])))

def other_files(st, path, fs0):
    g = fs(st); p = z3.Const(fresh_name('p'), S)
    return z3.ForAll([p], z3.Implies(p != path, z3.And(g['fs_x'][p] == fs0['fs_x'][p], g['fs_n'][p] == fs0['fs_n'][p], g['fs_a'][p] == fs0['fs_a'][p])))

def args_of(E, f, by):
    """arguments by type and order: dims (vec), path, text, bool, ints in order, pointer, record"""
    ints = iter(by.get('ints', [])); out = []
    for p in f['params']:
        t = E.ty(p['t']); u = t.e if t.isref() else t
        c = u.cls()
        if c == 'vec': out.append(by['vec'])
        elif c == 'path': out.append(by['path'])
        elif c == 'string': out.append(by['text'])
        elif u.isbool(): out.append(by['bool'])
        elif u.isint(): out.append(next(ints))
        elif u.isptr(): out.append(by['ptr'])
        else: raise Unsupported('parameter of type ' + t.key())
    return out

# ---- the raw writer
def setup_w(E, st):
    f = E.u.fn(NS + 'write_data_to_raw_file')
    n = z3.Int('size'); st.assume(n >= 0, n < 1 << 63)
    src, bytes_ = cap.source(E, st, n)
    null = z3.Bool('src_null'); path = z3.Const('file', S)
    r = ('o', 'path'); st.store[r] = Opaque('path', {'s': path}) if False else path; st.types[r] = None
    ptr = PtrV(null, src, z3.IntVal(0))
    g = dict(fs(st))
    a = args_of(E, f, dict(path=Loc(r), ptr=ptr, ints=[n]))
    return a, None, Ctx(n=n, bytes=bytes_, null=null, path=path, src=src, fs0=g)

def post_w(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'failure is reported, not thrown', False, 'post'); return
    ok = E.boolean(out)
    E.oblige(st, 'success is never reported for a null pointer and data', z3.Implies(zb(ok), z3.Or(z3.Not(ctx.null), ctx.n == 0)), 'post')
    E.oblige(st, 'success means the file holds exactly the data', z3.Implies(zb(ok), file_content(E, st, ctx.path, ctx.n, ctx.bytes)), 'post')
    E.oblige(st, 'other files are untouched', other_files(st, ctx.path, ctx.fs0), 'post')
    now = E.read(st, ctx.src); i = z3.Int('i')
    E.oblige(st, 'the source is only read', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), now.a[i] == ctx.bytes[i])), 'post')

# ---- the capture
def setup(E, st):
    f = E.u.fn(NS + 'create_and_capture_to_file')
    io = cap.Store(E, st, f)
    dl, dims = cap.dims_arg(E, st)
    n = PROD(dims.a, zi(dims.n)); cap.product_setup(E, st, dims)
    src, bytes_ = cap.source(E, st, n)
    arg, pt, e, after = z3.Int('arg_idx'), z3.Int('primitive_type'), z3.Const('element_id', S), z3.Bool('after')
    null = z3.Bool('src_null'); path = z3.Const('file', S)
    r = ('o', 'path'); st.store[r] = path; st.types[r] = None
    st.assume(n >= 0, n < 1 << 63, zi(dims.n) >= 1, arg >= -(1 << 31), arg < 1 << 31, pt >= 0, pt < 19)
    g = dict(fs(st))
    a = args_of(E, f, dict(vec=dl, text=e, bool=after, ints=[arg, pt], ptr=PtrV(null, src, z3.IntVal(0)), path=Loc(r)))
    return a, io.loc, Ctx(io=io, arg=arg, pt=pt, e=e, after=after, dims=dims, n=n, bytes=bytes_, src=src, null=null, path=path, fs0=g, ploc=Loc(r))

def post(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'failure is reported, not thrown', False, 'post'); return
    io = ctx.io; k = io.key(ctx.arg, ctx.after); ok = zb(E.boolean(out))
    E.oblige(st, 'success is never reported for a null pointer and data', z3.Implies(ok, z3.Or(z3.Not(ctx.null), ctx.n == 0)), 'post')
    E.oblige(st, 'success means the file holds exactly the argument', z3.Implies(ok, file_content(E, st, ctx.path, ctx.n, ctx.bytes)), 'post')
    E.oblige(st, 'other files are untouched', other_files(st, ctx.path, ctx.fs0), 'post')
    o = E.read(st, io.loc)
    r = io.meta(E, st, ctx.e, k, ctx.arg, ctx.after, ctx.pt, ctx.dims)
    E.oblige(st, 'no inline data', io.field(r, 'data') == 0, 'post')
    a = io.field(r, 'ext_file')
    E.oblige(st, 'a failed capture records no file', z3.Implies(z3.Not(ok), a == 0), 'post')
    E.oblige(st, 'a successful capture records its file in storage of its own', z3.Implies(ok, z3.And(a >= io.nextaddr0, a > 0)), 'post')
    E.oblige(st, 'the recorded file is the requested one', z3.Implies(ok, io.heap(st, 'ext_file')[a] == ctx.path), 'post')
    E.oblige(st, 'the path given stays the same', zs(E.read(st, ctx.ploc)) == ctx.path, 'post')
    now = E.read(st, ctx.src); i = z3.Int('i')
    E.oblige(st, 'the source is only read', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), now.a[i] == ctx.bytes[i])), 'post')
    io.frame(st, ctx.e, k)

PROOFS = [Proof('write_data_to_raw_file', unit, NS + 'write_data_to_raw_file', setup_w, post_w),
          Proof('create_and_capture_to_file', unit, NS + 'create_and_capture_to_file', setup, post, config=cap.PCFG)]
REPLAY = [dict(src='c02.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp'])]
ASSUME = ['the product of the dimensions is below 2^63 and a non-null source holds that many bytes; the primitive type is one of the enumeration',
          'file system model: an ofstream whose open, writes and close all succeeded leaves exactly the bytes written in its file; one that failed leaves arbitrary content; open truncates',
          'unordered_map, vector, shared_ptr, accumulate behave as documented (record, array and heap-cell models)', 'memory allocation succeeds']
