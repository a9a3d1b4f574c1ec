"""C09: read_data_from_raw_file."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv.stl import fs
from ccv import kit
from . import cap
from .cap import unit, NS
from .C02 import args_of

def setup(E, st):
    f = E.u.fn(NS + 'read_data_from_raw_file')
    n, m = z3.Int('size'), z3.Int('buffer_size'); st.assume(n >= 0, n < 1 << 63, m >= n)
    dst, bytes_ = cap.source(E, st, m, 'dst')
    path = z3.Const('file', S); r = ('o', 'path'); st.store[r] = path; st.types[r] = None
    g = dict(fs(st)); st.assume(g['fs_n'][path] >= 0)
    i = z3.Int('i'); st.assume(z3.ForAll([i], z3.And(g['fs_a'][path][i] >= 0, g['fs_a'][path][i] <= 255), patterns=[g['fs_a'][path][i]]))
    a = args_of(E, f, dict(path=Loc(r), ptr=PtrV(False, dst, z3.IntVal(0)), ints=[n]))
    return a, None, Ctx(n=n, m=m, bytes=bytes_, path=path, dst=dst, fs0=g)

def post(E, st, out, ctx):
    g = ctx.fs0; now = E.read(st, ctx.dst); i = z3.Int('i'); fa = g['fs_a'][ctx.path]
    E.oblige(st, 'nothing beyond the bytes asked for is touched', z3.ForAll([i], z3.Implies(z3.And(i >= ctx.n, i < ctx.m), now.a[i] == ctx.bytes[i])), 'post')
    p = z3.Const('p', S); h = fs(st)
    E.oblige(st, 'no file changes', z3.ForAll([p], z3.And(h['fs_x'][p] == g['fs_x'][p], h['fs_n'][p] == g['fs_n'][p], h['fs_a'][p] == g['fs_a'][p])), 'post')
    if isinstance(out, Thrown): return
    E.oblige(st, 'a normal return means the file has that many bytes', z3.And(g['fs_x'][ctx.path], g['fs_n'][ctx.path] >= ctx.n), 'post')
    E.oblige(st, 'a normal return means the buffer holds the first bytes of the file', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), now.a[i] == fa[i])), 'post')

# the other direction: with a readable file that is long enough the read does not fail
def setup_ok(E, st):
    a, t, ctx = setup(E, st)
    st.assume(ctx.fs0['fs_n'][ctx.path] >= ctx.n)
    return a, t, ctx
def post_ok(E, st, out, ctx):
    if not isinstance(out, Thrown): E.oblige(st, 'reachable', True, 'post'); return
    # the only excuse is the environment: an open or a read that the operating system refused
    bad = [z3.Not(zb(e[3])) for e in st.events if e[0] == 'open'] + [z3.Not(zb(x)) for x in st.ghost.get('io_ok', [])]
    E.oblige(st, 'an error is raised only for a failed open or read', z3.Or(*bad) if bad else False, 'post')

PROOFS = [Proof('read_data_from_raw_file', unit, NS + 'read_data_from_raw_file', setup, post, covers=('return', 'throw')),
          Proof('read_data_from_raw_file succeeds', unit, NS + 'read_data_from_raw_file', setup_ok, post_ok)]
REPLAY = [dict(src='c09.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp'])]
ASSUME = ['the buffer holds at least the number of bytes asked for, below 2^63',
          'file system model: ifstream::read delivers the next bytes of the file, fewer only at the end of the file or on an error of the device; gcount is the number delivered']
