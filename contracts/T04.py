"""T04: the expression a language extension emits for a tasklet computes the operation.

tasklet() is executed symbolically for an arbitrary operation and arbitrary input names; every path ends with the
emitted text as a term over the names.  The text is parsed as a C expression and evaluated for operands of every
type the operation is defined on (bit vectors, IEEE floats), and the value is compared with the denotation."""
import re
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, solver
from contracts.T03 import codes as _codes
STUBS = '-I' + frontend.VERIF + '/stubs'
D = 'sdfg/src/codegen/language_extensions/'
LANGS = [('C', 'c_language_extension.cpp', 'CLanguageExtension'), ('C++', 'cpp_language_extension.cpp', 'CPPLanguageExtension'),
         ('CUDA', 'cuda_language_extension.cpp', 'CUDALanguageExtension')]
def unit_of(file):
    def unit():
        w = ''.join('#include "%s/sdfg/src/%s"\n' % (frontend.REPO, f) for f in ('data_flow/code_node.cpp', 'data_flow/tasklet.cpp', 'codegen/language_extensions/' + file))
        return frontend.load(D + file, wrapper=w, roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
    return unit

# ------------------------------------------------------------------ C expressions over text with operand holes
class Int:
    def __init__(self, v, w, s): self.v = v; self.w = w; self.s = s
class Fp:
    def __init__(self, v): self.v = v
F32, F64 = z3.FPSort(8, 24), z3.FPSort(11, 53)
RM = z3.RNE()
FMOD = z3.Function('fmod', F64, F64, F64)
FMA = {F32: z3.Function('fmaf', F32, F32, F32, F32), F64: z3.Function('fma', F64, F64, F64, F64)}
def tokens(parts):
    out = []
    for p in parts:
        if isinstance(p, int): out.append(('var', p)); continue
        i = 0
        while i < len(p):
            m = re.compile(r'\s+').match(p, i)
            if m: i = m.end(); continue
            m = re.compile(r'(?:0[xX][0-9a-fA-F]+|\d+\.\d*(?:[eE][+-]?\d+)?[fFlL]?|\d+(?:[eE][+-]?\d+)?)[uUlLfF]*').match(p, i)
            if m: out.append(('num', m.group())); i = m.end(); continue
            m = re.compile(r'(?:::)?[A-Za-z_]\w*(?:::[A-Za-z_]\w*)*').match(p, i)
            if m: out.append(('id', m.group())); i = m.end(); continue
            m = re.compile(r'<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^~!<>?:(),]').match(p, i)
            if not m: raise Unsupported('emitted text %r' % p[i:])
            out.append(('op', m.group())); i = m.end()
    for a, b in zip(out, out[1:]):
        if a[0] != 'op' and b[0] != 'op': raise Unsupported('emitted text: %r next to %r' % (a, b))
    # maximal munch: what the pieces spell when written side by side ("-" and a name are separate tokens, "-" "-" are not)
    return out
TYPES = {'char': (8, True), 'signed char': (8, True), 'int8_t': (8, True), 'short': (16, True), 'int16_t': (16, True), 'int': (32, True), 'int32_t': (32, True), 'long': (64, True), 'long long': (64, True), 'int64_t': (64, True),
         'unsigned char': (8, False), 'uint8_t': (8, False), 'unsigned short': (16, False), 'uint16_t': (16, False), 'unsigned': (32, False), 'unsigned int': (32, False), 'uint32_t': (32, False),
         'unsigned long': (64, False), 'unsigned long long': (64, False), 'uint64_t': (64, False), 'size_t': (64, False)}
class Eval:
    def __init__(self, toks, ops): self.t = toks; self.i = 0; self.ops = ops
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('end', '')
    def op(self, *os):
        k, v = self.peek()
        if k == 'op' and v in os: self.i += 1; return v
    def want(self, o):
        if not self.op(o): raise Unsupported('emitted text: %r expected at %r' % (o, self.t[self.i:]))
    def run(self):
        v = self.cond()
        if self.peek()[0] != 'end': raise Unsupported('emitted text: %r left over' % (self.t[self.i:],))
        return v
    def cond(self):
        c = self.binary(0)
        if not self.op('?'): return c
        a = self.cond(); self.want(':'); b = self.cond()
        if isinstance(a, Fp) or isinstance(b, Fp):
            a, b = self.arith(a, b); return Fp(z3.If(self.truth(c), a.v, b.v))
        a, b = self.arith(a, b); return Int(z3.If(self.truth(c), a.v, b.v), a.w, a.s)
    LEVELS = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]
    def binary(self, l):
        if l == len(self.LEVELS): return self.unary()
        a = self.binary(l + 1)
        while True:
            o = self.op(*self.LEVELS[l])
            if not o: return a
            a = self.apply(o, a, self.binary(l + 1))
    def bool(self, f): return Int(z3.If(f, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), 32, True)
    def truth(self, x):
        if isinstance(x, Fp): return z3.Not(z3.fpEQ(x.v, z3.FPVal(0.0, x.v.sort())))
        return x.v != 0
    def promote(self, x):
        if isinstance(x, Fp) or x.w >= 32: return x
        return Int(z3.SignExt(32 - x.w, x.v) if x.s else z3.ZeroExt(32 - x.w, x.v), 32, True)
    def conv(self, x, w, s):
        if isinstance(x, Fp): raise Unsupported('emitted text: floating-point to integer')
        v = x.v
        if w > x.w: v = z3.SignExt(w - x.w, v) if x.s else z3.ZeroExt(w - x.w, v)
        elif w < x.w: v = z3.Extract(w - 1, 0, v)
        return Int(v, w, s)
    def tofp(self, x, so):
        if isinstance(x, Fp): return x if x.v.sort() == so else Fp(z3.fpToFP(RM, x.v, so))
        return Fp(z3.fpSignedToFP(RM, x.v, so) if x.s else z3.fpUnsignedToFP(RM, x.v, so))
    def arith(self, a, b):
        if isinstance(a, Fp) or isinstance(b, Fp):
            so = F64 if any(isinstance(x, Fp) and x.v.sort() == F64 for x in (a, b)) else F32
            return self.tofp(a, so), self.tofp(b, so)
        a, b = self.promote(a), self.promote(b)
        w = max(a.w, b.w)
        s = not any(not x.s and x.w == w for x in (a, b))
        return self.conv(a, w, s), self.conv(b, w, s)
    def apply(self, o, a, b):
        if o == '||': return self.bool(z3.Or(self.truth(a), self.truth(b)))
        if o == '&&': return self.bool(z3.And(self.truth(a), self.truth(b)))
        if o in ('<<', '>>'):
            if isinstance(a, Fp) or isinstance(b, Fp): raise Unsupported('emitted text: shift of floating-point')
            a, b = self.promote(a), self.promote(b)
            n = self.conv(b, a.w, b.s).v
            return Int(a.v << n if o == '<<' else (a.v >> n if a.s else z3.LShR(a.v, n)), a.w, a.s)
        a, b = self.arith(a, b)
        if isinstance(a, Fp):
            x, y = a.v, b.v
            if o in CMPS: return self.bool({'==': z3.fpEQ, '!=': lambda p, q: z3.Not(z3.fpEQ(p, q)), '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[o](x, y))
            f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}.get(o)
            if not f: raise Unsupported('emitted text: %s on floating-point' % o)
            return Fp(f(RM, x, y))
        x, y, s = a.v, b.v, a.s
        if o in CMPS: return self.bool({'==': x == y, '!=': x != y, '<': x < y if s else z3.ULT(x, y), '<=': x <= y if s else z3.ULE(x, y), '>': x > y if s else z3.UGT(x, y), '>=': x >= y if s else z3.UGE(x, y)}[o])
        v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y if s else z3.UDiv(x, y), '%': lambda: z3.SRem(x, y) if s else z3.URem(x, y),
             '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[o]()
        return Int(v, a.w, s)
    def unary(self):
        o = self.op('-', '+', '~', '!')
        if o:
            x = self.promote(self.unary())
            if o == '!': return self.bool(z3.Not(self.truth(x)))
            if o == '+': return x
            if isinstance(x, Fp):
                if o == '~': raise Unsupported('emitted text: ~ on floating-point')
                return Fp(z3.fpNeg(x.v))
            return Int(-x.v if o == '-' else ~x.v, x.w, x.s)
        if self.peek() == ('op', '(') and self.i + 1 < len(self.t) and self.t[self.i + 1][0] == 'id':
            j = self.i + 1; ws = []
            while self.t[j][0] == 'id': ws.append(self.t[j][1].replace('std::', '')); j += 1
            if self.t[j] == ('op', ')') and (' '.join(ws) in TYPES or ' '.join(ws) in ('float', 'double')):
                self.i = j + 1
                x = self.unary(); n = ' '.join(ws)
                if n in TYPES: return self.conv(x, *TYPES[n])
                return self.tofp(x, F32 if n == 'float' else F64)
        return self.primary()
    def primary(self):
        k, v = self.peek()
        if self.op('('):
            x = self.cond(); self.want(')'); return x
        self.i += 1
        if k == 'var': return self.ops[v]
        if k == 'num':
            m = re.fullmatch(r'(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)', v)
            if m:
                n = int(m.group(1), 0) if m.group(1)[:2].lower() == '0x' or not m.group(1).startswith('0') or m.group(1) == '0' else int(m.group(1), 8)
                u = 'u' in m.group(2).lower(); l = 'l' in m.group(2).lower()
                w = 64 if l or n >= 1 << (32 if u else 31) else 32
                return Int(z3.BitVecVal(n, w), w, not u)
            m = re.fullmatch(r'(\d+\.\d*(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)([fF]?)', v)
            if m: return Fp(z3.FPVal(float(m.group(1)), F32 if m.group(2) else F64))
        if k == 'id':
            if v in ('true', 'false'): return Int(z3.BitVecVal(1 if v == 'true' else 0, 32), 32, True)
            self.want('('); args = [self.cond()]
            while self.op(','): args.append(self.cond())
            self.want(')')
            n = v.replace('std::', '').lstrip(':').replace('__builtin_', '')
            if n == 'isnan' and len(args) == 1 and isinstance(args[0], Fp): return self.bool(z3.fpIsNaN(args[0].v))
            if n == 'isunordered' and len(args) == 2:
                a, b = self.arith(*args)
                if isinstance(a, Fp): return self.bool(z3.Or(z3.fpIsNaN(a.v), z3.fpIsNaN(b.v)))
            if n in ('fmod', 'fmodf') and len(args) == 2: return Fp(FMOD(*[self.tofp(a, F64).v for a in args]))
            if n in ('fma', 'fmaf') and len(args) == 3:
                so = F32 if n == 'fmaf' else F64
                if n == 'fma' and all(isinstance(a, Fp) and a.v.sort() == F32 for a in args) and v != 'fma': so = F32
                return Fp(FMA[so](*[self.tofp(a, so).v for a in args]))
        raise Unsupported('emitted text: %s' % v)
CMPS = ('==', '!=', '<', '<=', '>', '>=')

# ------------------------------------------------------------------ what the operations denote
def wide(x, w, s):
    """the number an operand stands for, in a width that holds every operand exactly"""
    return x if w >= 32 else z3.SignExt(32 - w, x) if s else z3.ZeroExt(32 - w, x)
def b2i(f): return z3.If(f, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
def cmp3(lt, gt): return z3.If(lt, z3.BitVecVal(-1, 32), z3.If(gt, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
def no_ovf(o, x, y, w):
    """the exact result fits the operand width (signed operands)"""
    k = 2 * w; e = lambda v: z3.SignExt(k - w, v)
    if o == 'mul': return z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
    r = e(x) + e(y) if o == 'add' else e(x) - e(y)
    return z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1)))
def denote_int(o, w, s, x, y):
    """(value, True if the value is a truth value or a sign, condition under which it is defined)"""
    T = z3.BoolVal(True)
    nz = y != 0 if y is not None else None
    if o in ('add', 'sub', 'mul'):
        v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[o]()
        return v, False, no_ovf(o, x, y, w) if s else T
    if o in ('sdiv', 'srem'):
        a, b = wide(x, w, True), wide(y, w, True)
        v = a / b if o == 'sdiv' else z3.SRem(a, b)
        return (v if w >= 32 else z3.Extract(w - 1, 0, v)), False, z3.And(nz, z3.Not(z3.And(x == 1 << (w - 1), y == -1)))
    if o in ('udiv', 'urem'):
        a, b = wide(x, w, False), wide(y, w, False)
        # below 32 bits both readings of the widened operands are the same number
        v = (a / b if o == 'udiv' else z3.SRem(a, b)) if w < 32 else z3.UDiv(a, b) if o == 'udiv' else z3.URem(a, b)
        return (v if w >= 32 else z3.Extract(w - 1, 0, v)), False, nz
    if o in ('and', 'or', 'xor'): return {'and': x & y, 'or': x | y, 'xor': x ^ y}[o], False, T
    inr = z3.ULT(y, w) if y is not None else T
    if o == 'shl': return x << y, False, inr
    if o == 'ashr': return x >> y, False, inr
    if o == 'lshr': return z3.LShR(x, y), False, inr
    if o == 'smin': return z3.If(x < y, x, y), False, T
    if o == 'smax': return z3.If(x > y, x, y), False, T
    if o == 'umin': return z3.If(z3.ULT(x, y), x, y), False, T
    if o == 'umax': return z3.If(z3.UGT(x, y), x, y), False, T
    if o == 'scmp': return cmp3(x < y, x > y), True, T
    if o == 'ucmp': return cmp3(z3.ULT(x, y), z3.UGT(x, y)), True, T
    if o == 'abs': return z3.If(x < 0, -x, x), False, x != 1 << (w - 1)
    f = {'eq': x == y, 'ne': x != y} if y is not None else {}
    f.update({'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y, 'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y), 'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y)})
    return b2i(f[o]), True, T
SIGNED = {'sdiv', 'srem', 'ashr', 'smin', 'smax', 'scmp', 'sge', 'sgt', 'sle', 'slt', 'abs'}
UNSIGNED = {'udiv', 'urem', 'lshr', 'umin', 'umax', 'ucmp', 'uge', 'ugt', 'ule', 'ult'}
def denote_fp(o, a, so):
    """list of acceptable values, True if it is a truth value"""
    if o == 'neg': return [z3.fpNeg(a[0])], False
    if o in ('add', 'sub', 'mul', 'div'): return [{'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[o](RM, a[0], a[1])], False
    if o == 'rem':
        v = FMOD(*[z3.fpToFP(RM, x, F64) if so == F32 else x for x in a[:2]])
        return [z3.fpToFP(RM, v, F32) if so == F32 else v], False
    if o == 'fma':
        r = [z3.fpAdd(RM, z3.fpMul(RM, a[0], a[1]), a[2]), FMA[so](*a)]
        if so == F32: r.append(z3.fpToFP(RM, FMA[F64](*[z3.fpToFP(RM, x, F64) for x in a]), F32))
        return r, False
    un = z3.Or(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1]))
    if o == 'ord': return [b2i(z3.Not(un))], True
    if o == 'uno': return [b2i(un)], True
    c = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[o[1:]](a[0], a[1])
    return [b2i(z3.And(z3.Not(un), c) if o[0] == 'o' else z3.Or(un, c))], True

# ------------------------------------------------------------------ proofs
def names(): return [z3.Const('in%d' % i, S) for i in range(3)]
def setup(E, st):
    f = E.proof.unit().fns(E.proof.fn)[0]
    u = E.u
    r, r2 = ('o', 'extension'), ('o', 'tasklet')
    t = E.ty(f['cls']); st.store[r] = StructV(t.key(), {}); st.types[r] = t
    t2 = E.ty(u.fns('sdfg::data_flow::Tasklet::code')[0]['cls'])
    vt = E.ty(u.fns('sdfg::data_flow::CodeNode::inputs')[0]['ret']).e
    v = E.fresh(st, vt, 'inputs'); n = names()
    k = _codes()
    c = z3.Int('code'); st.assume(z3.Or([c == x for x in k.values()]))
    from contracts.T03 import ARITY
    for o, x in k.items(): st.assume(z3.Implies(c == x, zi(v.n) == ARITY[o]))
    for i in range(3): st.assume(v.a[i] == n[i], z3.Length(n[i]) >= 1, z3.Length(n[i]) < 1 << 40)
    st.store[r2] = StructV(t2.key(), {'code_': c, 'inputs_': v}); st.types[r2] = t2
    E.c_names = {v.a[i].sexpr(): i for i in range(3)}; E.c_sel = [v.a[i] for i in range(3)]
    return [Loc(r2)], Loc(r), Ctx(c=c, k=k, sel=E.c_sel)
def flatten(t):
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT): return [y for x in t.children() for y in flatten(x)]
    return [t]
def parts_of(E, t):
    out = []
    for x in flatten(z3.simplify(t)):
        if z3.is_string_value(x):
            if out and isinstance(out[-1], str): out[-1] += x.as_string()
            else: out.append(x.as_string())
        elif x.sexpr() in E.c_names: out.append(E.c_names[x.sexpr()])
        else: raise Unsupported('emitted text contains %s' % x.sexpr()[:80])
    return out
def check_op(E, name, parts, line):
    """obligations: the emitted expression, for every operand type of the operation"""
    st = engine.State()
    cls, o = ('assign', 'assign') if name == 'assign' else (name.split('_')[0], name.split('_')[1])
    def same(e, val, truth, so):
        if truth: return e.v == (z3.SignExt(e.w - 32, val) if e.w > 32 else val) if isinstance(e, Int) else z3.BoolVal(False)
    kinds = []
    if cls in ('int', 'assign'):
        for w in (8, 16, 32, 64):
            for s in ((True,) if o in SIGNED else (False,) if o in UNSIGNED else (True, False)): kinds.append((w, s))
    if cls in ('fp', 'assign'): kinds += [F32, F64]
    for kd in kinds:
        if isinstance(kd, tuple):
            w, s = kd
            xs = [z3.BitVec('%s%d' % (n, w), w) for n in 'abc']
            e = Eval(tokens(parts), [Int(x, w, s) for x in xs])
            v = e.run()
            what = '%s on %sint%d' % (name, '' if s else 'u', w)
            if o == 'assign': val, truth, de = xs[0], False, z3.BoolVal(True)
            else: val, truth, de = denote_int(o, w, s, xs[0], xs[1])
            if isinstance(v, Fp): E.oblige(st, what + ': an integer', False, 'post'); continue
            if truth: g = e.conv(v, 64, True).v == z3.SignExt(32, val)
            else: g = e.conv(v, w, s).v == val
            E.oblige(st, what, z3.Implies(de, g), 'post')
        else:
            xs = [z3.FP('%s%d' % (n, kd.ebits()), kd) for n in 'xyz']
            e = Eval(tokens(parts), [Fp(x) for x in xs])
            v = e.run()
            what = '%s on %s' % (name, 'float' if kd == F32 else 'double')
            if o == 'assign': vals, truth = [xs[0]], False
            else: vals, truth = denote_fp(o, xs, kd)
            if truth:
                if isinstance(v, Fp): E.oblige(st, what + ': a truth value', False, 'post'); continue
                E.oblige(st, what, e.conv(v, 64, True).v == z3.SignExt(32, vals[0]), 'post')
            else:
                r = e.tofp(v, kd).v
                eq = lambda p, q: z3.BoolVal(True) if p.eq(q) else p == q
                if any(z3.simplify(r).eq(z3.simplify(q)) for q in vals): E.oblige(st, what, True, 'post')
                else: E.oblige(st, what, z3.Or([eq(r, q) for q in vals]), 'post')
def post(E, st, out, ctx):
    cs = []
    # the operations this path is taken for
    s = z3.Solver(); s.set('timeout', 20000); s.add([f for f in st.pc])
    for n, x in ctx.k.items():
        r = s.check(ctx.c == x)
        if r == z3.unknown: raise Unsupported('which operations take this path')
        if r != z3.unsat: cs.append((n, x))
    for n, x in cs:
        E.c_seen = getattr(E, 'c_seen', {}); E.c_seen.setdefault(n, 0); E.c_seen[n] += 1
        if isinstance(out, Thrown): E.oblige(st, 'text for %s' % n, ctx.c != x, 'post'); continue
        t = z3.substitute(zs(out), (ctx.c, z3.IntVal(x)))
        check_op(E, n, parts_of(E, t), E.line)
SPELL = {'Void': ['void'], 'Bool': ['bool', '_Bool'], 'Int8': ['signed char', 'int8_t'], 'Int16': ['short', 'int16_t', 'short int', 'signed short'], 'Int32': ['int', 'int32_t', 'signed int'], 'Int64': ['long long', 'long', 'int64_t', 'long long int', 'signed long long'],
         'Int128': ['__int128', '__int128_t', 'signed __int128'], 'UInt8': ['unsigned char', 'uint8_t'], 'UInt16': ['unsigned short', 'uint16_t', 'unsigned short int'], 'UInt32': ['unsigned int', 'unsigned', 'uint32_t'],
         'UInt64': ['unsigned long long', 'unsigned long', 'uint64_t', 'unsigned long long int'], 'UInt128': ['unsigned __int128', '__uint128_t'], 'Float': ['float'], 'Double': ['double'], 'X86_FP80': ['long double', '__float80']}
PNAMES = 'Void Bool Int8 Int16 Int32 Int64 Int128 UInt8 UInt16 UInt32 UInt64 UInt128 Half BFloat Float Double X86_FP80 FP128 PPC_FP128'.split()
def setup_t(E, st):
    f = E.proof.unit().fns(E.proof.fn)[0]
    r = ('o', 'extension'); t = E.ty(f['cls']); st.store[r] = StructV(t.key(), {}); st.types[r] = t
    e = z3.Int('e'); st.assume(e >= 0, e <= 18)
    return [e], Loc(r), Ctx(e=e)
def post_t(lang):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'every type has a spelling', False, 'post'); return
        for i, n in enumerate(PNAMES):
            if n not in SPELL: E.oblige(st, 'spelling of %s' % n, z3.Implies(ctx.e == i, z3.Length(zs(out)) > 0), 'post')
            # known finding: C and CUDA spell UInt8 "char" (see known-findings.txt); replayed by the campaign
            elif n == 'UInt8' and lang != 'C++': E.oblige(st, 'spelling of UInt8, apart from the known finding', z3.Implies(ctx.e == i, z3.Or([zs(out) == z3.StringVal(x) for x in SPELL[n] + ['char']])), 'post')
            else: E.oblige(st, 'spelling of %s' % n, z3.Implies(ctx.e == i, z3.Or([zs(out) == z3.StringVal(x) for x in SPELL[n]])), 'post')
    return post
PROOFS = [Proof('%s: expression of every tasklet operation' % l, unit_of(f), 'sdfg::codegen::%s::tasklet' % c, setup, post) for l, f, c in LANGS] + \
         [Proof('%s: spelling of every primitive type' % l, unit_of(f), 'sdfg::codegen::%s::primitive_type' % c, setup_t, post_t(l)) for l, f, c in LANGS]
REPLAY = [dict(src='t04.cpp', flags=[STUBS, '-fno-access-control'], san=[], libs=['-ldl', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'],
               repo=['sdfg/src/' + x for x in ('codegen/language_extensions/c_language_extension.cpp', 'codegen/language_extensions/cpp_language_extension.cpp', 'codegen/language_extensions/cuda_language_extension.cpp',
                                               'data_flow/tasklet.cpp', 'data_flow/code_node.cpp', 'data_flow/data_flow_node.cpp', 'element.cpp')])]
ASSUME = ['the meaning of the emitted text is given by the C expression evaluator in contracts/T04.py (precedence, integer promotion, usual arithmetic conversions; signed overflow wraps where promotion makes it possible, as with -fwrapv); the campaign compiles and runs the same text with gcc',
          'input names are identifiers', 'operands are declared in the type the contract names (8 to 64 bit integers of the signedness the operation interprets, float, double), as the block dispatcher does',
          'fmod on the double values of float operands, rounded back, is fmod of the floats; fp_fma may round once or twice',
          'an operation is compared on the operands it is defined for (no signed overflow, divisor not 0, shift below the width)',
          'the SymEngine classes the headers mention are parsed from declarations without behaviour (stubs/symengine); no verified function uses them']
