"""M02: the min / max / multiply-add helper macros, instantiated with operands and in contexts of every precedence."""
import itertools
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend

# operand shapes (arithmetic, side-effect free), as C text over the variables x, y, z
OPS = [('x', lambda x, y, z: x), ('x + y', lambda x, y, z: x + y), ('x - z', lambda x, y, z: x - z), ('x * y', lambda x, y, z: x * y), ('-x', lambda x, y, z: -x),
       ('x < y ? y : z', lambda x, y, z: z3.If(x < y, y, z)), ('(T)(x == y)', lambda x, y, z: z3.If(x == y, z3.RealVal(1), z3.RealVal(0)))]
# contexts around the macro: text with @ for the macro call
CTX = [('@', lambda m, w: m), ('w * @', lambda m, w: w * m), ('@ * w', lambda m, w: m * w), ('w - @', lambda m, w: w - m), ('-@', lambda m, w: -m),
       ('@ - w', lambda m, w: m - w), ('w < @ ? w : w + 1', lambda m, w: z3.If(w < m, w, w + 1)), ('@ == w ? w : w + 1', lambda m, w: z3.If(m == w, w, w + 1))]
MACROS = [('__daisy_min', 2, lambda a, b: z3.If(a < b, a, b)), ('__daisy_max', 2, lambda a, b: z3.If(a > b, a, b)), ('__daisy_fma', 3, lambda a, b, c: a * b + c)]

def instances():
    out = []
    for (mn, ar, spec) in MACROS:
        for ci, (ct, cs) in enumerate(CTX):
            # every operand shape in every position, the other positions plain or rotated
            for pos in range(ar):
                for oi, (ot, osx) in enumerate(OPS):
                    shapes = [OPS[(oi * (k + 1) + k) % len(OPS)] for k in range(ar)]
                    shapes[pos] = (ot, osx)
                    out.append((mn, ct, cs, spec, shapes))
    return out

def text(T):
    src = '#include <daisy_rtl/daisy_rtl.h>\ntypedef %s T;\n' % T
    for i, (mn, ct, cs, spec, shapes) in enumerate(instances()):
        # operand k uses its own triple of variables
        args = []
        for k, (ot, _) in enumerate(shapes):
            args.append(''.join({'x': 'x%d' % k, 'y': 'y%d' % k, 'z': 'z%d' % k}.get(ch, ch) for ch in ot))
        ps = ', '.join('T %s%d' % (v, k) for k in range(3) for v in 'xyz')
        src += 'T m%d(%s, T w) { return %s; }\n' % (i, ps, ct.replace('@', '%s(%s)' % (mn, ', '.join(args))))
    return src

def unit():
    return frontend.load('rtl/include/daisy_rtl/daisy_rtl.h', wrapper=text('double'), roots=[frontend.REPO + '/', frontend.BUILD + '/'])

def mkproof(lo, hi):
    """instances lo..hi as one proof unit (each instance has its own postcondition)"""
    ins = instances()
    def setup(E, st):
        return [z3.Real('%s%d' % (v, k)) for k in range(3) for v in 'xyz'] + [z3.Real('w')], None, Ctx()
    class P(Proof): pass
    out = []
    for i in range(lo, hi):
        mn, ct, cs, spec, shapes = ins[i]
        def post(E, st, out, ctx, i=i, mn=mn, cs=cs, spec=spec, shapes=shapes):
            vs = [[z3.Real('%s%d' % (v, k)) for v in 'xyz'] for k in range(3)]
            a = [osx(*vs[k]) for k, (_, osx) in enumerate(shapes)]
            E.oblige(st, '%s is one operand and computes its function' % mn, zr(out) == cs(spec(*a), z3.Real('w')), 'post')
        out.append(Proof('%s #%d' % (mn, i), unit, 'm%d' % i, setup, post, config=dict(div_obligations=False), bmc=None))
    return out

PROOFS = mkproof(0, len(instances()))
REPLAY = [dict(src='m02.cpp')]
ASSUME = ['operands are side-effect free (min and max evaluate one operand twice)', 'floating point is treated as the real numbers: NaN operands and rounding are outside this proof',
          'the macros are verified through %d generated instantiations (operand shapes x positions x surrounding operators); the extraction drops nothing else' % len(instances())]
