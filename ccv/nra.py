"""Nonlinear real arithmetic: a goal is generalised to one over real variables only (array reads, conversions and
other non-arithmetic terms become variables, integers may be any real), with the ground facts and the instances of
quantified facts that concern the same terms, and handed to nlsat.  Only the answer unsat is used, hence sound."""
import itertools
import z3
R = z3.RealSort()

def nonlinear(f):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.sort() == R:
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1: return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not z3.is_rational_value(x.arg(1)): return True
        st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False

class Gen:
    def __init__(self, lin=False): self.lin = lin; self.atoms = {}; self.side = []; self.memo = {}; self.idx = {}; self.reads = {}; self.div = {}
    def atom(self, t):
        k = t.get_id()
        if k not in self.atoms: self.atoms[k] = (t, z3.Real('a%d' % len(self.atoms)))
        return self.atoms[k][1]
    def read(self, a, i):
        """a[i] with the stores looked through"""
        if z3.is_store(a):
            j = a.arg(1)
            if j.eq(i): return self.num(a.arg(2))
            return z3.If(self.num(i) == self.num(j), self.num(a.arg(2)), self.read(a.arg(0), i))
        if z3.is_const_array(a): return self.num(a.arg(0))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(self.boo(a.arg(0)), self.read(a.arg(1), i), self.read(a.arg(2), i))
        if z3.is_quantifier(a) and a.is_lambda() and a.num_vars() == 1:
            return self.num(z3.simplify(z3.substitute_vars(a.body(), i)))
        t = z3.Select(a, i); v = self.atom(t)
        self.idx[i.get_id()] = i; rs = self.reads.setdefault(a.get_id(), (a, []))[1]
        if not any(j.eq(i) for j, _ in rs):
            for j, w in rs: self.side.append(z3.Implies(self.num(i) == self.num(j), v == w))
            rs.append((i, v))
        return v
    def num(self, t):
        k = t.get_id()
        if k in self.memo and self.memo[k][0].eq(t): return self.memo[k][1]
        r = self.num0(t); self.memo[k] = (t, r); return r
    def num0(self, t):
        if z3.is_int_value(t): return z3.RealVal(t.as_long())
        if z3.is_rational_value(t): return t
        if not z3.is_app(t): return self.atom(t)
        k = t.decl().kind(); c = t.children()
        if k == z3.Z3_OP_TO_REAL: return self.num(c[0])
        if k == z3.Z3_OP_ADD: return z3.Sum(*[self.num(x) for x in c])
        if k == z3.Z3_OP_SUB: return self.num(c[0]) - z3.Sum(*[self.num(x) for x in c[1:]])
        if k == z3.Z3_OP_UMINUS: return -self.num(c[0])
        if self.lin and (k == z3.Z3_OP_MUL and sum(1 for x in c if not z3.is_rational_value(x) and not z3.is_int_value(x)) > 1 or k == z3.Z3_OP_DIV and not z3.is_rational_value(c[1])): return self.atom(t)
        if k == z3.Z3_OP_MUL: return z3.Product(*[self.num(x) for x in c])
        if k == z3.Z3_OP_DIV:
            a, b = self.num(c[0]), self.num(c[1])
            if z3.is_rational_value(b) and b.as_fraction() != 0: return a / b
            q = self.atom(t); self.side.append(z3.Implies(b != 0, q * b == a)); return q
        if k == z3.Z3_OP_ITE: return z3.If(self.boo(c[0]), self.num(c[1]), self.num(c[2]))
        if k == z3.Z3_OP_SELECT and len(c) == 2 and c[0].sort().domain() == z3.IntSort(): return self.read(c[0], c[1])
        return self.atom(t)
    def boo(self, t):
        """None for what is not arithmetic"""
        if z3.is_true(t) or z3.is_false(t): return t
        if not z3.is_app(t): raise ValueError
        k = t.decl().kind(); c = t.children()
        B = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}
        if k in B: return B[k](*[self.boo(x) for x in c])
        if k == z3.Z3_OP_NOT: return z3.Not(self.boo(c[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.boo(c[0]), self.boo(c[1]))
        if k == z3.Z3_OP_ITE: return z3.If(self.boo(c[0]), self.boo(c[1]), self.boo(c[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c[0].sort() == z3.BoolSort():
            e = self.boo(c[0]) == self.boo(c[1]); return e if k == z3.Z3_OP_EQ else z3.Not(e)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c[0].sort() in (R, z3.IntSort()):
            e = self.num(c[0]) == self.num(c[1]); return e if k == z3.Z3_OP_EQ else z3.Not(e)
        if k == z3.Z3_OP_LE: return self.num(c[0]) <= self.num(c[1])
        if k == z3.Z3_OP_LT: return self.num(c[0]) < self.num(c[1])
        if k == z3.Z3_OP_GE: return self.num(c[0]) >= self.num(c[1])
        if k == z3.Z3_OP_GT: return self.num(c[0]) > self.num(c[1])
        if t.sort() == z3.BoolSort():
            i = t.get_id(); self.memo.setdefault(('b', i), (t, z3.Bool('b%d' % i))); return self.memo[('b', i)][1]
        raise ValueError
    def ineq(self, t):
        """over the integers a < b is a <= b - 1; done by the caller on ground facts"""

def skolem(g):
    n = 0
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const('sk!%d!%s' % (n + i, g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]; n += g.num_vars()
            g = z3.substitute_vars(g.body(), *reversed(vs)); continue
        return g
def conj(f):
    if z3.is_and(f): return [y for x in f.children() for y in conj(x)]
    return [f]
def has_q(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) and not x.is_lambda(): return True
        st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False
def tighten(f):
    """integer strict inequalities as weak ones"""
    def go(t):
        if not z3.is_app(t): return t
        k = t.decl().kind(); c = t.children()
        if k == z3.Z3_OP_NOT and z3.is_app(c[0]) and c[0].num_args() == 2 and c[0].arg(0).sort() == z3.IntSort():
            a, b = c[0].arg(0), c[0].arg(1); kk = c[0].decl().kind()
            if kk == z3.Z3_OP_LE: return a >= b + 1
            if kk == z3.Z3_OP_GE: return a + 1 <= b
            if kk == z3.Z3_OP_LT: return a >= b
            if kk == z3.Z3_OP_GT: return a <= b
            if kk == z3.Z3_OP_EQ: return z3.Or(a >= b + 1, a + 1 <= b)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES): return t.decl()(*[go(x) for x in c])
        if k == z3.Z3_OP_LT and c[0].sort() == z3.IntSort(): return c[0] + 1 <= c[1]
        if k == z3.Z3_OP_GT and c[0].sort() == z3.IntSort(): return c[0] >= c[1] + 1
        return t
    return go(f)

def stores(g):
    """indices j of Store(a, j, v)[i] with another index i: pairs (i, j)"""
    out = []; seen = set(); st = [g]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.num_args() == 2:
            a, i = x.arg(0), x.arg(1)
            while z3.is_store(a):
                j = a.arg(1)
                if not i.eq(j) and i.sort() == z3.IntSort() and not any(p.eq(i) and q.eq(j) for p, q in out): out.append((i, j))
                a = a.arg(0)
        st.extend(x.children())
    return out
def skip(g, i, j, memo=None):
    """g where i and j are known to differ"""
    memo = {} if memo is None else memo
    k = g.get_id()
    if k in memo: return memo[k]
    if not z3.is_app(g) or g.num_args() == 0: r = g
    else:
        c = [skip(x, i, j, memo) for x in g.children()]
        if g.decl().kind() == z3.Z3_OP_SELECT and len(c) == 2 and c[1].eq(i):
            a = c[0]
            while z3.is_store(a) and a.arg(1).eq(j): a = a.arg(0)
            r = z3.Select(a, i)
        else: r = g.decl()(*c) if c else g
    memo[k] = r; return r
def big(f):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_int_value(x) and abs(x.as_long()) > 1 << 32: return True
        st.extend(x.children())
    return False
def cases(goal):
    """(extra facts, goal) per case of the written indices"""
    g = z3.simplify(skolem(goal)); todo = [([], g)]; out = []
    while todo:
        h, g = todo.pop()
        ps = stores(g)
        if not ps or len(h) > 3: out.append((h, g)); continue
        i, j = ps[0]
        if z3.is_const(i): todo.append((h + [i == j], z3.simplify(z3.substitute(g, (i, j)))))
        else: todo.append((h + [i == j], z3.simplify(z3.Implies(i == j, g)))) if False else out.append((h, g))
        if z3.is_const(i): todo.append((h + [i != j], z3.simplify(skip(g, i, j))))
    return out
def query(pc, goal, lin=False):
    """formulas over the reals whose unsatisfiability proves pc => goal; None if out of reach"""
    G = Gen(lin); out = []
    try: out.append(G.boo(tighten(z3.simplify(z3.Not(goal)))))
    except ValueError: return None
    ground = []; quant = []
    for f in pc:
        for x in conj(z3.simplify(f) if not has_q(f) else f): (quant if has_q(x) else ground).append(x)
    done = {}
    idx = list(G.idx.values())
    for rnd in range(2):
        inst = []
        for q in quant:
            if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == z3.IntSort():
                for i in idx: inst.append(z3.simplify(z3.substitute_vars(q.body(), i)))
        n0 = len(out)
        for f in ground + [y for x in inst for y in conj(x)]:
            if f.get_id() in done and done[f.get_id()].eq(f) or has_q(f) or big(f): continue
            # only facts about the same terms
            k0 = len(G.atoms); s0 = len(G.side); m0 = dict(G.memo); a0 = dict(G.atoms); i0 = dict(G.idx); r0 = {k: (a, list(l)) for k, (a, l) in G.reads.items()}
            try: b = G.boo(tighten(f))
            except ValueError: b = None
            vs = vars_of(b) if b is not None else set()
            new = len(G.atoms) - k0
            kn = {v.get_id() for t, v in a0.values() if t.get_id() not in G.idx} if new else None
            if b is None or not vs or new > 6 or (new and not any(v in kn for v in vs)):
                G.memo = m0; G.atoms = a0; G.idx = i0; G.reads = r0; del G.side[s0:]; continue
            done[f.get_id()] = f; out.append(b)
        if len(out) == n0 and rnd: break
    return out + G.side
def known(atoms): return {v.get_id() for _, v in atoms.values()}
def vars_of(f):
    out = set(); st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.get_id())
        st.extend(x.children())
    return out
def prove(pc, goal, timeout=8000):
    cs = cases(goal)
    for h, g in cs:
        ok = False
        for lin in (True, False):
            q = query(list(pc) + h, g, lin)
            if q is None: continue
            s = z3.Solver() if lin else z3.SolverFor('QF_NRA')
            s.set('timeout', timeout)
            for f in q: s.add(f)
            if s.check() == z3.unsat: ok = True; break
        if not ok:
            if DEBUG: DEBUG(h, g, q, pc)
            return False
    return True
DEBUG = None
