"""Shared by the contracts on rtl/src/capture.cpp: the runtime capture context, verified together with the store it uses."""
import z3
from ccv.values import *
from ccv import frontend, kit
from . import cap

def unit():
    return frontend.load('rtl/src/capture.cpp + arg-capture-io/src/arg_capture_io.cpp',
                         wrapper='#include "%s/arg-capture-io/src/arg_capture_io.cpp"\n#include "%s/rtl/src/capture.cpp"\n' % (frontend.REPO, frontend.REPO),
                         roots=[frontend.REPO + '/', frontend.BUILD + '/'])
NS = 'DaisyRtlCapture::'
ALL = (1 << 32) - 1

class Ctxt(cap.Store):
    """an arbitrary runtime capture context"""
    def __init__(self, E, st):
        cap.Store.__init__(self, E, st, E.u.fn(NS + 'enter'))
        rec = E.c.record(self.t)
        self.limit = [n for n, t in rec if t.isint()][0]
        self.dir = [n for n, t in rec if t.cls() == 'path'][0]
    def ptr(self): return PtrV(False, self.loc)
    def settings_frame(self, st):
        E = self.E; o, o0 = E.read(st, self.loc), self.obj0
        E.oblige(st, 'the strategy is unchanged', zi(o.f[self.limit]) == zi(o0.f[self.limit]), 'post')
        E.oblige(st, 'the output directory is unchanged', zs(o.f[self.dir]) == zs(o0.f[self.dir]), 'post')
        E.oblige(st, 'the name is unchanged', zs(o.f[self.name]) == zs(o0.f[self.name]), 'post')
    def counters(self, st):
        o = self.E.read(st, self.loc).f[self.inv]; return o.dom, o.val
    def store_same(self, st):
        E = self.E; o, o0 = E.read(st, self.loc), self.obj0
        E.oblige(st, 'the captures are unchanged', kit.map_eq(o.f[self.cap], o0.f[self.cap]), 'post')
        E.oblige(st, 'the counters are unchanged', kit.map_eq(o.f[self.inv], o0.f[self.inv]), 'post')
