"""A01: ArgumentRegistry."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, engine, kit

NS = 'sdfg::codegen::ArgumentRegistry::'
def unit(): return frontend.load('sdfg/include/sdfg/codegen/code_compilation/argument_registry.h', wrapper='#include <sdfg/codegen/code_compilation/argument_registry.h>\n')

def fields(E, t):
    ms = [n for n, ft in E.c.record(t) if ft.cls() == 'map']
    c = [n for n in ms if 'compile' in n]; l = [n for n in ms if 'link' in n]
    return c[0], l[0]

def setup(kind, op):
    def go(E, st):
        f = E.u.fns(NS + op)[0]
        t = E.ty(f['cls'])
        this = kit.fresh_obj(E, st, t, 'registry')
        c, l = fields(E, t)
        mine, other = (c, l) if kind == 'compile' else (l, c)
        old = E.read(st, this)
        args = [kit.fresh_param(E, st, f, i) for i in range(len(f['params']))]
        av = [E.val(st, a) for a in args]
        return args, this, Ctx(this=this, mine=mine, other=other, old=old, av=av, t=t, d=old.f[mine].dom)
    return go

def frame(E, st, ctx, mine_too):
    new = E.read(st, ctx.this)
    for n in ([ctx.mine] if mine_too else []) + [ctx.other]:
        E.oblige(st, 'the other registry contents are unchanged', kit.map_eq(new.f[n], ctx.old.f[n]), 'post')
    return new

def post_register(E, st, out, ctx):
    old = ctx.old.f[ctx.mine]; k = ctx.av[0]
    if isinstance(out, Thrown):
        E.oblige(st, 'an error is raised only for a registered target', old.dom[zs(k)], 'post')
        E.oblige(st, 'the error is std::runtime_error', out.tn == 'std::runtime_error', 'post')
        frame(E, st, ctx, True); return
    E.oblige(st, 'registering again is an error', z3.Not(old.dom[zs(k)]), 'post')
    new = frame(E, st, ctx, False).f[ctx.mine]
    E.oblige(st, 'exactly this list is stored under this target', kit.map_is_update(E, new, old, zs(k), E.c.enc(ctx.av[1], old.vt)), 'post')
    E.oblige(st, 'the count grows by one', zi(new.size) == zi(old.size) + 1, 'post')

def post_get(E, st, out, ctx):
    old = ctx.old.f[ctx.mine]; k = zs(ctx.av[0])
    if isinstance(out, Thrown): E.oblige(st, 'asking never fails', False, 'post'); return
    E.oblige(st, 'a registered target has its list', z3.Implies(old.dom[k], E.c.enc(out, old.vt) == old.val[k]), 'post')
    E.oblige(st, 'an unknown target has no arguments', z3.Implies(z3.Not(old.dom[k]), zi(out.n) == 0), 'post')
    frame(E, st, ctx, True)

def post_size(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'asking never fails', False, 'post'); return
    E.oblige(st, 'the count is the number of targets', zi(out) == zi(ctx.old.f[ctx.mine].size), 'post')
    frame(E, st, ctx, True)

def locks(p, bmc, budget):
    """every access to a registry map happens while one and the same mutex of the registry is held"""
    u = unit()
    t = [f for f in u.functions if f['qn'].startswith(NS) and not f.get('isctor') and not f.get('static')]
    held = {}      # field -> list of (function, line, lockset, state)
    E = None; first = None; obls = []
    for f in t:
        E = engine.Engine(u, 'seq', 0, bmc, {}, {})
        st = engine.State()
        E.frame = engine.Frame({'qn': f['qn'], 'd': -1, 'params': [], 'ret': f['ret']}, None); E.frame.__dict__['locals'] = set()
        this = kit.fresh_obj(E, st, E.ty(f['cls']), 'registry')
        args = [kit.fresh_param(E, st, f, i) for i in range(len(f['params']))]
        maps = [n for n, ft in E.c.record(E.ty(f['cls'])) if ft.cls() == 'map']
        def hook(E, s, loc, write, f=f):
            if loc.root == this.root and loc.path and loc.path[0][0] == 'f' and loc.path[0][1] in maps:
                held.setdefault(loc.path[0][1], []).append((f['n'], E.line, frozenset(s.ghost.get('locks', ()))))
        E.access_hook = hook
        for s, out in E.call_body(st, f, args, this): pass
        obls += E.obls
    E.access_hook = None
    E.frame.fn = {'qn': NS + '*'}
    E.obls = obls
    for fld, acc in sorted(held.items()):
        common = frozenset.intersection(*[a[2] for a in acc])
        for fn, line, ls in sorted(set(acc), key=str):
            E.line = line; st = engine.State()
            E.oblige(st, '%s: access to the %s happens under its lock' % (fn, 'shared map'), bool(common) or (bool(ls) and False), 'post')
    return E, {'return': 1}, len(t), t[0]

PROOFS = []
for kind in ('compile', 'linker'):
    PROOFS.append(Proof('register_%s_args' % kind, unit, NS + 'register_%s_args' % kind, setup(kind, 'register_%s_args' % kind), post_register, covers=('return', 'throw')))
    PROOFS.append(Proof('get_%s_args' % kind, unit, NS + 'get_%s_args' % kind, setup(kind, 'get_%s_args' % kind), post_get))
    PROOFS.append(Proof('size_%s_args' % kind, unit, NS + 'size_%s_args' % kind, setup(kind, 'size_%s_args' % kind), post_size))
PROOFS.append(Proof('lock discipline', unit, NS + '*', None, None, custom=locks, nobmc=True))

REPLAY = [dict(src='a01.cpp'), dict(src='a01t.cpp', san='thread', flags=['-pthread'], libs=['-pthread'])]
ASSUME = ['atomicity is proved as a lock discipline (one common mutex held at every access); that a mutex serialises its critical sections is the library\'s contract',
          'std::unordered_map, std::vector and std::string behave as the mathematical map, sequence and text they document']
