"""C05: an entry describes only its newest capture; clear drops every entry."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit
from . import cap, C01, C02
from .cap import unit, NS

def post_inline(E, st, out, ctx):
    """whatever the store held under this key before: only this capture shows, and nothing else moves"""
    if isinstance(out, Thrown): E.oblige(st, 'an inline capture does not fail', False, 'post'); return
    io = ctx.io; k = io.key(ctx.arg, ctx.after)
    r = io.meta(E, st, ctx.e, k, ctx.arg, ctx.after, ctx.pt, ctx.dims)
    E.oblige(st, 'nothing of an older file capture shows', io.field(r, 'ext_file') == 0, 'post')
    E.oblige(st, 'the bytes are not those of an older capture', io.field(r, 'data') >= io.nextaddr0, 'post')
    io.frame(st, ctx.e, k)

def post_file(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'failure is reported, not thrown', False, 'post'); return
    io = ctx.io; k = io.key(ctx.arg, ctx.after)
    r = io.meta(E, st, ctx.e, k, ctx.arg, ctx.after, ctx.pt, ctx.dims)
    E.oblige(st, 'nothing of an older inline capture shows', io.field(r, 'data') == 0, 'post')
    a = io.field(r, 'ext_file')
    E.oblige(st, 'nothing of an older file capture shows', z3.Or(a == 0, a >= io.nextaddr0), 'post')
    io.frame(st, ctx.e, k)

def setup_clear(E, st):
    f = E.u.fn(NS + 'clear')
    io = cap.Store(E, st, f)
    return [], io.loc, Ctx(io=io)

def post_clear(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'clearing does not fail', False, 'post'); return
    io = ctx.io; o = E.read(st, io.loc)
    e = z3.Const('e', S); k = z3.Const('k', E.c.sort(io.capT.args[0]))
    E.oblige(st, 'no entry is left', z3.ForAll([e, k], z3.Not(io.has(o, e, k))), 'post')
    io.frame_rest(st)

PROOFS = [Proof('recapture inline', unit, NS + 'create_and_capture_inline', C01.setup, post_inline, config=C01.cap.PCFG),
          Proof('recapture to a file', unit, NS + 'create_and_capture_to_file', C02.setup, post_file, config=C01.cap.PCFG),
          Proof('clear', unit, NS + 'clear', setup_clear, post_clear)]
REPLAY = [dict(src='c05.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp'])]
ASSUME = C01.ASSUME + C02.ASSUME[1:2]
