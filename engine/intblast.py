"""Bit-vector facts as integer facts: an unsatisfiability proof by linear integer arithmetic.
Sums modulo 2^w become  r = sum - k*2^w  with 0 <= r < 2^w and k within the interval the operands allow; terms outside the
fragment become unconstrained integers of their range (so "unsat" carries over; "sat" says nothing)."""
import z3

K = z3
OPS = {z3.Z3_OP_ULEQ: "ule", z3.Z3_OP_ULT: "ult", z3.Z3_OP_UGEQ: "uge", z3.Z3_OP_UGT: "ugt",
       z3.Z3_OP_SLEQ: "sle", z3.Z3_OP_SLT: "slt", z3.Z3_OP_SGEQ: "sge", z3.Z3_OP_SGT: "sgt"}


class Blast:
    def __init__(self, limit=20000):
        self.side = []
        self.t = {}      # id -> (ast, int expr, lo, hi)
        self.b = {}
        self.n = 0
        self.limit = limit
        self.ufs = {}
        self.sels = {}

    def fresh(self, lo, hi):
        self.n += 1
        x = z3.Int(f"ib!{self.n}")
        self.side.append(z3.And(x >= lo, x <= hi))
        return x

    def const(self, v):
        return (z3.IntVal(v), v, v)

    def norm(self, e, lo, hi, w):
        """e modulo 2^w, e an integer expression within [lo, hi]"""
        M = 1 << w
        if lo == hi:
            return self.const(lo % M)
        k0, k1 = lo // M, hi // M
        if k0 == k1:
            return (e - k0 * M if k0 else e), lo - k0 * M, hi - k0 * M
        self.n += 1
        r, k = z3.Int(f"ib!{self.n}"), z3.Int(f"ik!{self.n}")
        self.side.append(z3.And(r >= 0, r < M, k >= k0, k <= k1, r == e - k * M))
        return r, 0, M - 1

    def lin(self, t, c, acc, w):
        """acc: list of (coef, int expr, lo, hi)"""
        d = t.decl().kind()
        if z3.is_bv_value(t):
            acc.append((c, z3.IntVal(t.as_long()), t.as_long(), t.as_long()))
        elif d == z3.Z3_OP_BADD:
            for x in t.children():
                self.lin(x, c, acc, w)
        elif d == z3.Z3_OP_BSUB:
            self.lin(t.arg(0), c, acc, w)
            for x in t.children()[1:]:
                self.lin(x, -c, acc, w)
        elif d == z3.Z3_OP_BNEG:
            self.lin(t.arg(0), -c, acc, w)
        elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            v = t.arg(0).as_long()
            if v >= 1 << (w - 1):
                v -= 1 << w
            self.lin(t.arg(1), c * v, acc, w)
        elif d == z3.Z3_OP_BNOT:
            acc.append((-c, z3.IntVal(1), 1, 1))
            self.lin(t.arg(0), -c, acc, w)
        else:
            e, lo, hi = self.term(t)
            acc.append((c, e, lo, hi))

    def term(self, t):
        i = t.get_id()
        h = self.t.get(i)
        if h is not None:
            return h[1]
        if len(self.t) > self.limit:
            raise OverflowError
        r = self._term(t)
        self.t[i] = (t, r)
        return r

    def _term(self, t):
        w = t.size()
        M = 1 << w
        if z3.is_bv_value(t):
            return self.const(t.as_long())
        d = t.decl().kind()
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT) or (d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0))):
            acc = []
            self.lin(t, 1, acc, w)
            e, lo, hi = 0, 0, 0
            for c, x, a, b in acc:
                e = e + c * x
                lo += c * a if c >= 0 else c * b
                hi += c * b if c >= 0 else c * a
            return self.norm(e, lo, hi, w)
        if d == z3.Z3_OP_ITE:
            c = self.bool(t.arg(0))
            a, b = self.term(t.arg(1)), self.term(t.arg(2))
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if d == z3.Z3_OP_ZERO_EXT:
            return self.term(t.arg(0))
        if d == z3.Z3_OP_SIGN_EXT:
            e, lo, hi = self.term(t.arg(0))
            w0 = t.arg(0).size()
            if hi < 1 << (w0 - 1):
                return e, lo, hi
            return z3.If(e >= 1 << (w0 - 1), e + (M - (1 << w0)), e), 0, M - 1
        if d == z3.Z3_OP_CONCAT:
            e, lo, hi = self.const(0)
            for x in t.children():
                f, l, h = self.term(x)
                s = 1 << x.size()
                e, lo, hi = (e * s + f if not (lo == hi == 0) else f), lo * s + l, hi * s + h
            return e, lo, hi
        if d == z3.Z3_OP_EXTRACT:
            hb, lb = t.params()
            e, lo, hi = self.term(t.arg(0))
            if lb == 0 and hi < M:
                return e, lo, hi
            if lo == hi:
                return self.const((lo >> lb) % M)
            if lb:
                q, l = self.fresh(lo >> lb, hi >> lb), self.fresh(0, (1 << lb) - 1)
                self.side.append(e == q * (1 << lb) + l)
                return self.norm(q, lo >> lb, hi >> lb, w)
            return self.norm(e, lo, hi, w)
        if d == z3.Z3_OP_BAND and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            v = t.arg(0).as_long()
            if v and v & (v + 1) == 0:
                k = v.bit_length()
                e, lo, hi = self.term(t.arg(1))
                return self.norm(e, lo, hi, k)
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
            s = 1 << t.arg(1).as_long()
            e, lo, hi = self.term(t.arg(0))
            return self.norm(e * s, lo * s, hi * s, w)
        if d in (z3.Z3_OP_BLSHR,) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
            k = t.arg(1).as_long()
            e, lo, hi = self.term(t.arg(0))
            q, l = self.fresh(lo >> k, hi >> k), self.fresh(0, (1 << k) - 1)
            self.side.append(e == q * (1 << k) + l)
            return q, lo >> k, hi >> k
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            v = t.arg(1).as_long()
            e, lo, hi = self.term(t.arg(0))
            q, l = self.fresh(lo // v, hi // v), self.fresh(0, v - 1)
            self.side.append(e == q * v + l)
            return (q, lo // v, hi // v) if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (l, 0, min(v - 1, hi))
        if d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            e, lo, hi = self.term(t.arg(0))
            f, l2, h2 = self.term(t.arg(1))
            r = self.fresh(0, hi)
            self.side.append(z3.And(r <= e, z3.Implies(f > 0, r < f), z3.Implies(e < f, r == e), z3.Implies(z3.And(e >= f, e < 2 * f), r == e - f)))
            return r, 0, hi
        if d == z3.Z3_OP_SELECT:
            return self.select(t.arg(0), t.arg(1), w)
        if d == z3.Z3_OP_UNINTERPRETED and t.num_args() and all(z3.is_bv(x) for x in t.children()):
            return self.uf(t.decl().name(), [self.term(x)[0] for x in t.children()], w)
        return self.fresh(0, M - 1), 0, M - 1

    def uf(self, name, args, w):
        f = self.ufs.get((name, len(args)))
        if f is None:
            f = self.ufs[(name, len(args))] = z3.Function("uf!" + name, *([z3.IntSort()] * (len(args) + 1)))
        x = f(*args)
        k = x.get_id()
        if k not in self.sels:
            self.sels[k] = x
            self.side.append(z3.And(x >= 0, x < 1 << w))
        return x, 0, (1 << w) - 1

    def index(self, ix):
        if z3.is_app_of(ix, z3.Z3_OP_CONCAT):
            return [self.term(x)[0] for x in ix.children()]
        return [self.term(ix)[0]]

    def select(self, a, ix, w):
        if z3.is_app_of(a, z3.Z3_OP_STORE):
            c = self.bool(a.arg(1) == ix)
            v = self.term(a.arg(2))
            if z3.is_true(c):
                return v
            r = self.select(a.arg(0), ix, w)
            if z3.is_false(c):
                return r
            return z3.If(c, v[0], r[0]), min(v[1], r[1]), max(v[2], r[2])
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            c = self.bool(a.arg(0))
            v, r = self.select(a.arg(1), ix, w), self.select(a.arg(2), ix, w)
            return z3.If(c, v[0], r[0]), min(v[1], r[1]), max(v[2], r[2])
        if z3.is_const(a):
            i = self.index(ix)
            return self.uf(f"{a.decl().name()}/{len(i)}", i, w)
        if z3.is_quantifier(a) and a.is_lambda():
            return self.term(z3.simplify(z3.substitute_vars(a.body(), ix)))
        return self.fresh(0, (1 << w) - 1), 0, (1 << w) - 1

    def signed(self, t):
        e, lo, hi = self.term(t)
        w = t.size()
        if hi < 1 << (w - 1):
            return e
        return z3.If(e >= 1 << (w - 1), e - (1 << w), e)

    def bool(self, f):
        i = f.get_id()
        h = self.b.get(i)
        if h is not None:
            return h[1]
        r = self._bool(f)
        self.b[i] = (f, r)
        return r

    def _bool(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        d = f.decl().kind() if z3.is_app(f) else None
        if d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            cs = [self.bool(x) for x in f.children()]
            return z3.And(*cs) if d == z3.Z3_OP_AND else z3.Or(*cs)
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.bool(f.arg(0)))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(f.arg(0)), self.bool(f.arg(1)))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.bool(f.arg(0)), self.bool(f.arg(1)))
        if d in OPS:
            k = OPS[d]
            a, b = (self.signed(f.arg(0)), self.signed(f.arg(1))) if k[0] == "s" else (self.term(f.arg(0))[0], self.term(f.arg(1))[0])
            return {"le": a <= b, "lt": a < b, "ge": a >= b, "gt": a > b}[k[1:]]
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF) and f.num_args() == 2:
            x, y = f.arg(0), f.arg(1)
            if z3.is_bool(x):
                r = self.bool(x) == self.bool(y)
            elif z3.is_bv(x):
                if z3.is_app_of(x, z3.Z3_OP_CONCAT) and z3.is_app_of(y, z3.Z3_OP_CONCAT) and [p.size() for p in x.children()] == [p.size() for p in y.children()]:
                    r = z3.And(*[self.bool(p == q) for p, q in zip(x.children(), y.children())])
                else:
                    a, b = self.term(x), self.term(y)
                    r = a[0] == b[0]
            else:
                self.n += 1
                return z3.Bool(f"ibb!{self.n}")
            return z3.Not(r) if d == z3.Z3_OP_DISTINCT else r
        if d == z3.Z3_OP_ITE:
            return z3.If(self.bool(f.arg(0)), self.bool(f.arg(1)), self.bool(f.arg(2)))
        if z3.is_const(f):
            return z3.Bool("b!" + f.decl().name())
        self.n += 1
        return z3.Bool(f"ibb!{self.n}")


def unsat(fs, ms):
    """True if the (quantifier-free part of the) facts have no model"""
    B = Blast()
    try:
        out = [B.bool(f) for f in fs if not z3.is_quantifier(f)]
    except (OverflowError, RecursionError):
        return False
    s = z3.Solver()
    s.set("timeout", int(ms))
    for f in B.side:
        s.add(f)
    for f in out:
        s.add(f)
    return s.check() == z3.unsat
