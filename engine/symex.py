"""Symbolic execution of the extracted LLVM IR, producing verification conditions.

Memory model (stated in DESIGN.md):
 * heap cells are keyed by (outermost struct type, byte offset, width) and indexed by the object's
   address -- the type/field discipline of the C++ source (strict aliasing) is assumed;
 * std::vector contents are a sequence owned by the vector object (distinct vectors never share a
   buffer); libstdc++'s own reader code (size, [], begin, end, iterators, back, empty, pop_back,
   push_back's in-place branch ...) is executed, only reallocation / insert / swap / move primitives
   are modelled;
 * stack objects are byte-range cells.
"""
import re, itertools, time
import z3
import ir
import intblast
from ir import IRError

class Undecided(Exception):
    """The engine could not decide (unsupported construct, timeout...). Never a violation."""

BV = lambda v, w=64: z3.BitVecVal(v, w)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

LENBITS = 40
FLAT = {"pm::DetectorNode", "pm::SearchDetectorNode", "pm::GraphFillRegion", "pm::AltTreeNode"}

def tyname(n):
    n = re.sub(r"^(class|struct|union)\.", "", n)
    return re.sub(r"\.\d+$", "", n)

_hq = {}
def free_consts(f):
    seen, out, todo = set(), set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.get_id())
        else:
            todo.extend(t.children())
    return out


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    seen, w, res = set(), [f], False
    while w and not res:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = x.is_forall() or x.is_exists()
            continue
        w.extend(x.children())
    _hq[k] = (f, res)
    return res

_bs = {}
def big_sum(f):
    """does the formula contain a sum of many terms?"""
    k = f.get_id()
    r = _bs.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    seen, w, res = set(), [f], False
    while w and not res:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_BADD):
            n, y = 0, x
            while z3.is_app_of(y, z3.Z3_OP_BADD):
                n += y.num_args() - 1
                y = y.arg(0)
            res = n > 8
        w.extend([x.body()] if z3.is_quantifier(x) else x.children())
    _bs[k] = (f, res)
    return res

def boolish(x):
    """c when the bit-vector is If(c, 1, 0) or the constant 0 / 1"""
    if z3.is_bv_value(x):
        return FALSE if x.as_long() == 0 else TRUE if x.as_long() == 1 else None
    if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)) \
            and x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0:
        return x.arg(0)
    return None

class Ptr:
    __slots__ = ("tag", "idx", "off", "vf")
    def __init__(self, tag, idx, off=0, vf=None):
        self.tag, self.idx, self.off, self.vf = tag, idx, off, vf
    def __repr__(self):
        return f"<{self.tag}{list(self.idx)}+{self.off}{' vf%d' % self.vf if self.vf is not None else ''}>"
    def with_off(self, d):
        return Ptr(self.tag, self.idx, self.off + d)
    def is_elem(self):
        return self.tag.endswith("]")
    def is_local(self):
        return self.tag.startswith("%")

class PInt:      # ptrtoint of a structured pointer
    __slots__ = ("p",)
    def __init__(self, p): self.p = p

class Diff:      # difference of two element pointers of one sequence, in elements
    __slots__ = ("d", "tag", "neg")
    def __init__(self, d, tag): self.d, self.tag = d, tag

class Obj:
    """stack object"""
    __slots__ = ("id", "size", "cells", "ty", "mod")
    def __init__(self, id, size, ty=None, mod=None):
        self.id, self.size, self.cells, self.ty, self.mod = id, size, {}, ty, mod
    def copy(self):
        o = Obj(self.id, self.size, self.ty, self.mod)
        o.cells = dict(self.cells)
        return o

class Frame:
    __slots__ = ("fn", "block", "prev", "i", "regs", "dst", "normal", "cnt")
    def copy(self):
        f = Frame()
        f.fn, f.block, f.prev, f.i, f.dst, f.normal = self.fn, self.block, self.prev, self.i, self.dst, self.normal
        f.regs = dict(self.regs)
        f.cnt = dict(self.cnt)
        return f

class State:
    __slots__ = ("mem", "objs", "frames", "pc", "log", "ret", "notes", "old", "allow", "snap", "hints")
    def __init__(self):
        self.mem, self.objs, self.frames, self.pc, self.log, self.ret, self.notes = {}, {}, [], [], [], None, []
        self.old, self.allow, self.snap, self.hints = False, [], None, []
    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.objs = {k: v.copy() for k, v in self.objs.items()}
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.log = list(self.log)
        s.ret = self.ret
        s.notes = list(self.notes)
        s.old, s.allow, s.snap, s.hints = self.old, list(self.allow), self.snap, list(self.hints)
        return s

class Out:
    __slots__ = ("kind", "st", "to", "info")
    def __init__(self, kind, st, to=None, info=None):
        self.kind, self.st, self.to, self.info = kind, st, to, info

NOOP = re.compile(r"^(llvm\.(dbg|lifetime|assume|experimental|donothing)|__cxa_begin_catch|__cxa_end_catch|_ZdlPv|_ZdaPv|free$|__clang_call_terminate)")
THROW = re.compile(r"^(__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_|_ZSt9terminate|abort$|__assert_fail$)")

STRINGY = re.compile(r"^(std::__cxx11::(basic_string|to_string)|std::(__cxx11::)?to_string|std::__cxx11::basic_(o|i)?stringstream|"
                     r"std::basic_ostream|std::basic_ios|std::basic_istream|std::basic_string|std::operator\+|std::basic_ostream<char, std::char_traits<char> >& std::operator<<|"
                     r"std::(invalid_argument|out_of_range|runtime_error)::|std::allocator<char>::|__cxa_allocate_exception|__cxa_free_exception|llvm\.eh\.|std::__new_allocator<char>|"
                     r"std::(invalid_argument|out_of_range)\b|std::ostream::|std::string)")

_tv = {}
def term_vars(t):
    """names of uninterpreted constants in a term"""
    k = t.get_id()
    r = _tv.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    vs, seen, w = set(), set(), [t]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            w.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs.add(x.decl().name())
        w.extend(x.children())
    _tv[k] = (t, vs)
    return vs

class Check:
    __slots__ = ("label", "status", "model", "where", "ms", "feasible")
    def __init__(self, label, status, model, where, ms):
        self.label, self.status, self.model, self.where, self.ms = label, status, model, where, ms

class Engine:
    def __init__(self, prog, offs=None, solver_ms=15000):
        self.prog = prog
        self.offs = offs or {}
        self.cnt = itertools.count()
        self.mem0 = {}
        self.dims = {}
        self.etype = {}
        self.contracts = []      # [(compiled regex on demangled name, fn(engine,state,args,call)->list[(state,ret)] )]
        self.models = []
        self.solver_ms = solver_ms
        self.loop_mode = ("inv", 0)
        self.truncated = False
        self.loop_templates = None
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.inv_log = []
        self.stats = {"queries": 0, "solver_s": 0.0, "obligations": 0}
        self.steps = 0
        self.max_steps = 400000
        self.lin_debug = None
        self.used_stubs = set()
        self.deadline = None
        self.skip_fn = None
        self.max_depth = 40
        self.len_bound = 1 << 40
        self.quiet = 0
        self.check_bounds = True
        self.keep_smt = None
        self.len_rules = []
        self.trace = None
        self.rounds = 2
        self.houdini_ms = 12000
        self.idx_names = []
        self.splits = []         # (index term, size) of symbolic accesses to small arrays
        self.checks = []
        self.covers = {}
        self.cmp_rec = None
        self.preds = []          # [(name, Func, n_extra)]
        self.pred_args = []
        self.index_args = []
        self.harness = None
        self.axioms = []         # extra global facts (lemma instances)
        self.path_assumed = []   # lens that were assumed bounded

    # -------------------------------------------------------------- misc
    def fresh(self, name, w=64):
        n = f"{name}!{next(self.cnt)}"
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def solve(self, fs, ms=None, want_model=False):
        self.stats["queries"] += 1
        s = z3.Solver()
        s.set("timeout", ms or self.solver_ms)
        for a in self.axioms:
            s.add(a)
        for f in fs:
            s.add(f)
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        if want_model:
            return r, (s.model() if r == z3.sat else None), s
        return r

    def prove(self, pc, goal, ms=None, want_model=False):
        """z3 result of (pc and not goal), with case splits on small-array indices when z3 alone cannot decide"""
        fs = list(pc) + [z3.Not(goal)]
        ms = ms or self.solver_ms
        quant = any(has_quant(f) for f in fs)
        bg = big_sum(goal)
        if bg and not (self.splits and self.split_in(fs)):
            sub = self.elim_eqs([z3.simplify(f, blast_select_store=True) for f in fs if not has_quant(f)])
            r, model, s = self.solve(sub, min(ms, 3000), True)
            if r == z3.unsat:
                return (r, model, s) if want_model else r
        if bg and quant:        # the path itself may be contradictory
            r, model, s = self.qf_try([f for f in pc if not big_sum(f)], min(ms, 4000))
            if r == z3.unsat:
                return (r, model, s) if want_model else r
        if not bg:
            light = [f for f in pc if not big_sum(f)]
            if quant:
                if not has_quant(goal):
                    r, model, s = self.solve([f for f in light if not has_quant(f)] + [z3.Not(goal)], min(ms, 500), True)
                    if r == z3.unsat:
                        return (r, model, s) if want_model else r
                r, model, s = self.qf_try(light + [z3.Not(goal)], ms)
                if r == z3.unsat:
                    return (r, model, s) if want_model else r
                if r == z3.sat and not want_model and self.quiet:
                    return z3.unknown      # a candidate invariant: not worth more time
            if len(light) < len(pc):
                r, model, s = self.solve(light + [z3.Not(goal)], ms, True)
                if r == z3.unsat:
                    return (r, model, s) if want_model else r
        ts = self.split_in(fs) if self.splits else []
        if bg and ts:
            r = z3.unknown
        else:
            r, model, s = self.solve(fs, min(ms, 1500 if ts else 400), True)
            if r == z3.unknown and not ts and ms >= 1500:
                t0 = time.time()
                ok = intblast.unsat([f for f in fs if not has_quant(f)], min(2500, ms))
                self.stats["solver_s"] += time.time() - t0
                if ok:
                    self.stats["by_integers"] = self.stats.get("by_integers", 0) + 1
                    return (z3.unsat, None, None) if want_model else z3.unsat
                r, model, s = self.solve(fs, ms, True)
        if r == z3.unknown and ts:
            t, n = ts[-1]
            last = None
            orig = fs
            if bg and quant:
                fs = self.qf_expand(fs) or fs
            for v in range(n):
                sub = [t == v] + [z3.simplify(z3.substitute(f, (t, BV(v, t.size()))), blast_select_store=True) for f in fs]
                ids = set(f.get_id() for f in orig)
                rules = []
                for (as_, lhs, rhs) in self.len_rules:
                    if as_.get_id() in ids:
                        l, r2 = [z3.simplify(z3.substitute(x, (t, BV(v, t.size()))), blast_select_store=True) for x in (lhs, rhs)]
                        if not l.eq(r2):
                            rules.append((l, r2))
                if rules:
                    sub = [z3.simplify(z3.substitute(f, *rules)) for f in sub]
                if bg and self.linear_close(sub):
                    self.stats["queries"] += 1
                    r, model, s = z3.unsat, None, None
                    continue
                sub = self.elim_eqs(sub)
                r = z3.unknown
                if bg and not big_sum(sub[-1]):
                    r, model, s = self.solve([f for f in sub if not big_sum(f)], ms, True)
                if r != z3.unsat:
                    r, model, s = self.solve(sub, ms, True)
                if r == z3.sat and fs is not orig:
                    r = z3.unknown
                if r == z3.sat:
                    break
                if r != z3.unsat:
                    last = (r, model, s)
                    break
            if last:
                r, model, s = last
        return (r, model, s) if want_model else r

    # ---- quantifiers: skolemise, instantiate at the ground heap indices, solve without quantifiers
    def qf_try(self, fs, ms):
        out = self.qf_expand(fs)
        if out is None:
            return z3.unknown, None, None
        return self.solve_plain(out, ms)

    def solve_plain(self, fs, ms):
        if ms > 2500:
            r = self.solve_plain(fs, 400)
            if r[0] != z3.unknown:
                return r
            t = time.time()
            ok = intblast.unsat(fs, min(2500, ms))
            self.stats["solver_s"] += time.time() - t
            if ok:
                self.stats["by_integers"] = self.stats.get("by_integers", 0) + 1
                return z3.unsat, None, None
        self.stats["queries"] += 1
        s = z3.Solver()
        s.set("timeout", ms)
        for f in fs:
            s.add(f)
        t = time.time()
        res = s.check()
        self.stats["solver_s"] += time.time() - t
        return res, None, s

    def qf_expand(self, fs, rounds=None, cap=400):
        rounds = rounds or self.rounds
        g = z3.Goal()
        for a in self.axioms:
            g.add(a)
        for f in fs:
            g.add(z3.simplify(f))
        try:
            r = z3.Tactic("nnf")(g)
        except z3.Z3Exception:
            return None
        nf = list(r[0])
        ground = {}
        insts = {}
        def base(a):
            while z3.is_app_of(a, z3.Z3_OP_STORE):
                a = a.arg(0)
            if z3.is_quantifier(a) and a.is_lambda():
                w = [a.body()]
                while w:
                    x = w.pop()
                    if z3.is_app_of(x, z3.Z3_OP_SELECT) and z3.is_var(x.arg(1)):
                        return base(x.arg(0))
                    w.extend(x.children())
                return None
            if z3.is_const(a):
                return re.sub(r"^[MH]\|", "", a.decl().name()).split("!")[0]
            return None
        def named(x):       # a name the normal form gave to a term under a quantifier
            return z3.is_app(x) and x.num_args() >= 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(("z3name", "uf"))
        seen = set()
        def collect(t):
            w = [t]
            while w:
                x = w.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                keep.append(x)
                if z3.is_quantifier(x):
                    continue
                if z3.is_app_of(x, z3.Z3_OP_SELECT) or z3.is_app_of(x, z3.Z3_OP_STORE):
                    b = base(x.arg(0))
                    if b:
                        ground.setdefault(b, {})[x.arg(1).get_id()] = x.arg(1)
                elif named(x):
                    ground.setdefault(x.decl().name(), {})[x.get_id()] = x
                w.extend(x.children())
        keep = []
        def has_var(t):
            w, sn = [t], set()
            while w:
                x = w.pop()
                if x.get_id() in sn:
                    continue
                sn.add(x.get_id())
                if z3.is_var(x):
                    return True
                if not z3.is_quantifier(x):
                    w.extend(x.children())
            return False
        pats = {}
        def patterns(q):
            k = q.get_id()
            if k in pats:
                return pats[k][1]
            res, sn, w = {}, set(), [q.body()]
            while w:
                x = w.pop()
                if x.get_id() in sn:
                    continue
                sn.add(x.get_id())
                if z3.is_quantifier(x):
                    continue
                if z3.is_app_of(x, z3.Z3_OP_SELECT):
                    b = base(x.arg(0))
                    ix = x.arg(1)
                    if b and has_var(ix):
                        res[(b, ix.get_id())] = (b, ix)
                elif named(x) and has_var(x):
                    res[(x.decl().name(), x.get_id())] = (x.decl().name(), x)
                w.extend(x.children())
            heap = {a: b for a, b in res.items() if not a[0].startswith("uf")}
            res = heap or res        # specification functions serve as patterns only where no heap cell does
            pats[k] = (q, list(res.values()))
            return pats[k][1]
        def match(p, g, env):
            if z3.is_var(p):
                i = z3.get_var_index(p)
                if i in env:
                    return env if env[i].eq(g) else None
                if p.sort() != g.sort():
                    return None
                e = dict(env)
                e[i] = g
                return e
            if not has_var(p):
                return env if (p.eq(g) or not (z3.is_bv_value(p) and z3.is_bv_value(g))) and (p.eq(g) or True) else None
            if named(p):
                if not (named(g) and p.decl().eq(g.decl())):
                    return None
                for a, b in zip(p.children(), g.children()):
                    env = match(a, b, env)
                    if env is None:
                        return None
                return env
            if z3.is_app_of(p, z3.Z3_OP_CONCAT):
                ga = g.children() if z3.is_app_of(g, z3.Z3_OP_CONCAT) else [g]
                pa = p.children()
                flat = lambda l: [y for x in l for y in (flat(x.children()) if z3.is_app_of(x, z3.Z3_OP_CONCAT) else [x])]
                pa, ga = flat(pa), flat(ga)
                if len(pa) != len(ga) or [x.size() for x in pa] != [x.size() for x in ga]:
                    if sum(x.size() for x in pa) != g.size():
                        return None
                    hi, ga = g.size(), []
                    for x in pa:
                        ga.append(z3.simplify(z3.Extract(hi - 1, hi - x.size(), g)))
                        hi -= x.size()
                for a, b in zip(pa, ga):
                    env = match(a, b, env)
                    if env is None:
                        return None
                return env
            return None
        def expand(f, depth):
            """replace universal quantifiers by their instances"""
            if depth > 60:
                return z3.BoolVal(True)
            if z3.is_quantifier(f):
                if not f.is_forall():
                    return f
                k = f.get_id()
                cur = insts.setdefault(k, (f, {}))[1]
                n = f.num_vars()
                ps = patterns(f)
                envs = []
                for b, ix in ps:
                    for gi in list(ground.get(b, {}).values()):
                        e = match(ix, gi, {})
                        if e is not None:
                            envs.append(e)
                full = [e for e in envs if len(e) == n]
                part = [e for e in envs if len(e) < n]
                if len(full) < cap:
                    for e1 in part:
                        for e2 in part:
                            if len(full) >= cap:
                                break
                            if set(e1) | set(e2) == set(range(n)) and all(e1[i].eq(e2[i]) for i in set(e1) & set(e2)):
                                full.append({**e1, **e2})
                for e in full[:cap]:
                    vals = [e[i] for i in range(n)]
                    key = tuple(v.get_id() for v in vals)
                    if key not in cur:
                        keep.extend(vals)
                        cur[key] = z3.simplify(z3.substitute_vars(f.body(), *vals))
                return z3.And(*[expand(x, depth + 1) for x in cur.values()]) if cur else TRUE
            if z3.is_and(f) or z3.is_or(f):
                cs = [expand(c, depth + 1) for c in f.children()]
                return z3.And(*cs) if z3.is_and(f) else z3.Or(*cs)
            return f
        for f in reversed(nf):      # the goal's own terms come first
            collect(f)
        out = nf
        for _ in range(rounds):
            out = [expand(f, 0) for f in nf]
            n0 = sum(len(v) for v in ground.values())
            for f in out:
                collect(f)
            if sum(len(v) for v in ground.values()) == n0:
                break
        return [f for f in out if not z3.is_true(f)]

    def elim_eqs(self, fs):
        """use equalities  sum == x  (x a heap cell) as definitions: x is replaced by the sum elsewhere"""
        def terms(t):
            return [y for c in t.children() for y in terms(c)] if z3.is_app_of(t, z3.Z3_OP_BADD) else [t]
        for k, f in enumerate(fs):
            if not z3.is_eq(f) or not z3.is_bv(f.arg(0)) or not big_sum(f):
                continue
            done = False
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                ta = terms(a)
                for j, x in enumerate(ta):
                    if (z3.is_app_of(x, z3.Z3_OP_SELECT) or (z3.is_const(x) and not z3.is_bv_value(x))) and not done:
                        rest = b
                        for i, y in enumerate(ta):
                            if i != j:
                                rest = rest - y
                        rest = z3.simplify(rest)
                        fs = [g if i == k else z3.simplify(z3.substitute(g, (x, rest))) for i, g in enumerate(fs)]
                        done = True
        return fs

    def linear_close(self, fs):
        """do the equalities among fs[:-1] imply, by linear algebra modulo 2^64, the equality that fs[-1] denies?"""
        neg = fs[-1]
        if not (z3.is_not(neg) and z3.is_eq(neg.arg(0)) and z3.is_bv(neg.arg(0).arg(0)) and neg.arg(0).arg(0).size() == 64):
            return False
        M = (1 << 64) - 1
        same = {}
        keep = []
        def rep(k):
            while k in same:
                k = same[k]
            return k
        def lin(t, c, acc):
            d = t.decl().kind()
            if z3.is_bv_value(t):
                acc[0] = (acc.get(0, 0) + c * t.as_long()) & M
            elif d == z3.Z3_OP_BADD:
                for x in t.children(): lin(x, c, acc)
            elif d == z3.Z3_OP_BSUB:
                lin(t.arg(0), c, acc)
                for x in t.children()[1:]: lin(x, -c, acc)
            elif d == z3.Z3_OP_BNEG:
                lin(t.arg(0), -c, acc)
            elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                lin(t.arg(1), c * t.arg(0).as_long(), acc)
            else:
                if d == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
                    t = t.arg(1)
                elif d == z3.Z3_OP_ZERO_EXT:
                    t = t.arg(0)
                keep.append(t)
                k = rep(t.get_id())
                acc[k] = (acc.get(k, 0) + c) & M
        eqs = []
        def flat(f):
            if z3.is_and(f):
                for x in f.children(): flat(x)
            elif z3.is_eq(f) and z3.is_bv(f.arg(0)):
                eqs.append(f)
        for f in fs[:-1]:
            flat(f)
        for f in eqs:
            a, b = f.arg(0), f.arg(1)
            if a.size() < 64 and not z3.is_bv_value(a) and not z3.is_bv_value(b):
                ka, kb = rep(a.get_id()), rep(b.get_id())
                if ka != kb:
                    same[ka] = kb
        rows = []
        def reduce(acc):
            for (k, row) in rows:
                c = acc.get(k, 0)
                if c:
                    for j, v in row.items():
                        acc[j] = (acc.get(j, 0) - c * v) & M
            return {k: v for k, v in acc.items() if v}
        for f in eqs:
            a, b = f.arg(0), f.arg(1)
            if a.size() != 64 and not (a.size() < 64 and (z3.is_bv_value(a) or z3.is_bv_value(b))):
                continue
            acc = {}
            if a.size() < 64:
                x, c = (b, a) if z3.is_bv_value(a) else (a, b)
                acc = {rep(x.get_id()): 1, 0: (-c.as_long()) & M}
            else:
                lin(a, 1, acc)
                lin(b, -1, acc)
            acc = reduce(acc)
            for k, v in acc.items():
                if k and v in (1, M):
                    if v == M:
                        acc = {j: (-w) & M for j, w in acc.items()}
                    rows = [(k0, {j: w for j, w in ((j, (r0.get(j, 0) - r0.get(k, 0) * acc.get(j, 0)) & M) for j in set(r0) | set(acc)) if w}) if r0.get(k) else (k0, r0) for (k0, r0) in rows]
                    rows.append((k, acc))
                    break
        acc = {}
        g = neg.arg(0)
        lin(g.arg(0), 1, acc)
        lin(g.arg(1), -1, acc)
        acc = reduce(acc)
        if self.lin_debug:
            self.lin_debug(acc, rows, keep)
        if acc and 0 not in acc and len(acc) <= 4:
            d = {t.get_id(): t for t in keep}
            if all(k in d and d[k].size() <= 64 for k in acc):
                e = BV(0, 64)
                for k, v in acc.items():
                    e = e + BV(v, 64) * (z3.ZeroExt(64 - d[k].size(), d[k]) if d[k].size() < 64 else d[k])
                return self.solve_plain([f for f in fs[:-1] if not big_sum(f) and not has_quant(f)] + [e != 0], 10000)[0] == z3.unsat
        return not acc

    def split_in(self, fs):
        seen, found, w = set(), set(), list(fs)
        ids = {t.get_id(): k for k, (t, n) in enumerate(self.splits)}
        while w:
            x = w.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                found.add(ids[i])
            if z3.is_quantifier(x):
                w.append(x.body())
            else:
                w.extend(x.children())
        return [self.splits[k] for k in sorted(found)]

    def feasible(self, pc):
        # over-approximation: quantified facts and long sums are left out (a path kept in error costs only time)
        return self.solve([f for f in pc if not has_quant(f) and not big_sum(f)], 4000) != z3.unsat

    # -------------------------------------------------------------- memory
    def _idx(self, idx):
        return idx[0] if len(idx) == 1 else z3.Concat(*idx)

    def arr(self, st, key, dims):
        if st.old:
            a = st.snap.get(key) if st.snap else None
            if a is None:
                a = self.mem0.get(key)
            if a is None:
                self.arr0(st, key, dims)
                a = self.mem0[key]
            return a
        return self.arr0(st, key, dims)

    def arr0(self, st, key, dims):
        a = st.mem.get(key)
        if a is None:
            a = self.mem0.get(key)
            if a is None:
                w = LENBITS if key[2] == "len" else 64 if key[2] == "base" else key[2]
                nm = f"M|{key[0]}|{key[1]}|{key[2]}"
                a = z3.Array(nm, z3.BitVecSort(64 * dims), z3.BitVecSort(w))
                self.mem0[key] = a
                self.dims[key] = dims
            st.mem[key] = a
        if self.dims[key] != dims:
            raise Undecided(f"dimension mismatch at {key}")
        return a

    def rd(self, st, key, idx):
        return z3.Select(self.arr(st, key, len(idx)), self._idx(idx))

    def wr(self, st, key, idx, v):
        a = self.arr(st, key, len(idx))
        st.mem[key] = z3.Store(a, self._idx(idx), v)

    # vectors ------------------------------------------------------
    def vlen(self, st, p):
        if p.is_local():
            o = st.objs[p.tag]
            c = o.cells.get(p.off + 8)
            if c is None:
                v = z3.ZeroExt(64 - LENBITS, self.fresh("len", LENBITS))
                o.cells[p.off + 8] = (8, ("len", v))
                return v
            if isinstance(c[1], tuple) and c[1][0] == "len":
                return c[1][1]
            if z3.is_bv(c[1]) and z3.is_bv_value(z3.simplify(c[1])) and z3.simplify(c[1]).as_long() == 0:
                return BV(0)
            raise Undecided("vector length cell")
        return z3.ZeroExt(64 - LENBITS, self.rd(st, (p.tag, p.off, "len"), p.idx))

    def set_vlen(self, st, p, n):
        n = z3.simplify(n)
        if not z3.is_bv_value(n) and not (z3.is_app_of(n, z3.Z3_OP_CONCAT) and n.arg(0).size() >= 64 - LENBITS and z3.is_bv_value(n.arg(0)) and n.arg(0).as_long() == 0):
            if self.check_bounds and self.in_repo(st):
                self.check(st, n >= 0, "no element removed from an empty vector", st.frames[-1].fn.dem)
            as_ = z3.ULT(n, BV(1 << LENBITS))
            st.pc.append(as_)     # modelling assumption: lengths < 2^40
            self.len_rules.append((as_, z3.ZeroExt(64 - LENBITS, z3.simplify(z3.Extract(LENBITS - 1, 0, n))), n))
        if p.is_local():
            st.objs[p.tag].cells[p.off + 8] = (8, ("len", n))
        else:
            self.wr(st, (p.tag, p.off, "len"), p.idx, z3.simplify(z3.Extract(LENBITS - 1, 0, n)))

    def velem(self, p, i):
        """pointer to element i of the vector object at p"""
        return Ptr(f"{p.tag}+{p.off}[]", p.idx + (i,), 0)

    def vowner(self, q):
        """(tag of sequence, owner idx) of an element pointer"""
        return q.tag, q.idx[:-1]

    def set_etype(self, tag, mod, ty):
        if tag not in self.etype:
            self.etype[tag] = (mod, ty)

    def flat_elem(self, st, q):
        """Ptr to element of a vector of address-taken struct -> raw address"""
        mod, ty = self.etype[q.tag]
        m = re.match(r"^(.*)\+(\d+)\[\]$", q.tag)
        base_key = (m.group(1), int(m.group(2)), "base")
        owner = q.idx[:-1]
        if m.group(1).startswith("%") and not owner:
            b = z3.BitVec(f"base|{q.tag}", 64)
        else:
            b = self.rd(st, base_key, owner)
        return b + BV(mod.size(ty)) * q.idx[-1]

    def is_flat(self, q):
        if q.tag.endswith("[]") and q.tag in self.etype:
            mod, ty = self.etype[q.tag]
            return ty.k == "named" and tyname(ty.a) in FLAT
        return False

    def addr(self, st, p):
        if isinstance(p, z3.ExprRef):
            return p
        if not isinstance(p, Ptr):
            raise Undecided("address of " + repr(p))
        if p.vf is not None:
            p = Ptr(p.tag, p.idx, p.off)
        if p.tag.startswith("%") and not p.is_elem():
            return z3.BitVec(f"addr|{p.tag}", 64) + p.off
        if self.is_flat(p):
            a = self.flat_elem(st, p)
            return a + p.off if p.off else a
        if not p.is_elem() and len(p.idx) == 1:
            return p.idx[0] + p.off if p.off else p.idx[0]
        f = z3.Function(f"addr|{p.tag}", *([z3.BitVecSort(64)] * len(p.idx)), z3.BitVecSort(64))
        a = f(*p.idx)
        return a + p.off if p.off else a

    # memory safety of /repo code: element accesses stay inside their vector / array
    def in_repo(self, st):
        for f in st.frames[1:]:
            n = f.fn.name
            if n.startswith("_Z") and not n.startswith(("_ZNSt", "_ZNKSt", "_ZSt", "_ZN9__gnu", "_ZNK9__gnu", "_ZL")):
                return True
        return False

    def bounds(self, st, p, write):
        if not self.check_bounds or st.old or not self.in_repo(st):
            return
        m = re.match(r"^(.*)\+(\d+)\[\]$", p.tag)
        if not m:
            return
        n = self.vlen(st, Ptr(m.group(1), p.idx[:-1], int(m.group(2))))
        c = z3.simplify(z3.ULE(p.idx[-1], n) if write else z3.ULT(p.idx[-1], n))
        if not z3.is_true(c):
            self.check(st, c, "index within bounds of " + m.group(1) + "+" + m.group(2), st.frames[-1].fn.dem)

    # scalar load/store ---------------------------------------------
    def load(self, st, p, t):
        w = 64 if t.k == "ptr" else t.a
        if isinstance(p, Ptr) and p.vf is None and p.is_elem():
            self.bounds(st, p, False)
        if t.k == "fp":
            w = t.a
        if isinstance(p, z3.ExprRef):
            return self._bv2(self.rd(st, ("@", 0, max(8, w)), (p,)), w)
        if p.vf is not None:
            loc = Ptr(p.tag, p.idx, p.off - 8 * p.vf)
            if p.vf == 0:
                return self.velem(loc, BV(0))
            n = self.vlen(st, loc)
            if p.vf == 1:
                return self.velem(loc, n)
            c = self.fresh("cap")
            st.pc.append(z3.And(z3.UGE(c, n), z3.ULE(c, BV(self.len_bound * 2))))
            return self.velem(loc, c)
        if p.is_local() and not p.is_elem():
            return self.cell_load(st, st.objs[p.tag], p.off, w)
        if self.is_flat(p):
            p = self.reroot(st, p)
        if p.is_local():   # element of a local vector
            return self._bv2(self.rd(st, (p.tag, p.off, max(8, w)), p.idx), w)
        return self._bv2(self.rd(st, (p.tag, p.off, max(8, w)), p.idx), w)

    def reroot(self, st, p):
        mod, ty = self.etype[p.tag]
        return Ptr(tyname(ty.a), (self.flat_elem(st, p),), p.off)

    def _bv2(self, v, w):
        return (v == 1) if w == 1 else v

    def tobv(self, st, v, w=None):
        if isinstance(v, Ptr):
            return self.addr(st, v)
        if isinstance(v, (PInt,)):
            return self.addr(st, v.p)
        if isinstance(v, Diff):
            et = self.etype.get(v.tag)
            if et is None:
                raise Undecided("pointer difference of unknown stride")
            return v.d * BV(et[0].size(et[1]))
        if isinstance(v, tuple) and v[0] == "len":
            raise Undecided("raw vector length")
        if isinstance(v, z3.BoolRef):
            return z3.If(v, BV(1, w or 8), BV(0, w or 8))
        return v

    def store(self, st, p, t, v):
        w = 64 if t.k == "ptr" else t.a
        if isinstance(p, z3.ExprRef):
            self.wr(st, ("@", 0, max(8, w)), (p,), self.tobv(st, v, max(8, w)))
            return
        if p.vf is not None:
            loc = Ptr(p.tag, p.idx, p.off - 8 * p.vf)
            if p.vf == 1:
                if isinstance(v, Ptr) and v.is_elem():
                    own = self.velem(loc, BV(0))
                    if v.tag == own.tag and len(v.idx) == len(own.idx) and all(a.eq(b) for a, b in zip(v.idx[:-1], own.idx[:-1])):
                        self.set_vlen(st, loc, v.idx[-1])
                        return
                    raise Undecided("vector end set to a foreign pointer")
                vv = z3.simplify(self.tobv(st, v))
                if z3.is_bv_value(vv) and vv.as_long() == 0:
                    self.set_vlen(st, loc, BV(0))
                    return
                raise Undecided("vector end store")
            return  # start / end_of_storage: pointer identity is abstracted
        if p.is_local() and not p.is_elem():
            self.cell_store(st, st.objs[p.tag], p.off, max(1, w // 8), v)
            return
        if p.is_elem():
            self.bounds(st, p, True)
        if self.is_flat(p):
            p = self.reroot(st, p)
        self.wr(st, (p.tag, p.off, max(8, w)), p.idx, self.tobv(st, v, max(8, w)))

    def cell_load(self, st, o, off, w):
        n = max(1, w // 8)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if isinstance(v, tuple):
                raise Undecided("raw read of vector header")
            if w == 1 and not isinstance(v, z3.BoolRef):
                return v == 1
            if w != 1 and isinstance(v, z3.BoolRef):
                return z3.If(v, BV(1, w), BV(0, w))
            return v
        # assemble bytes
        parts = []
        for k in range(n):
            parts.append(self._byte(st, o, off + k))
        if n == 1:
            v = parts[0]
        else:
            v = z3.simplify(z3.Concat(*parts[::-1]))
        return (v == 1) if w == 1 else v

    def _byte(self, st, o, off):
        for co, (n, v) in o.cells.items():
            if co <= off < co + n:
                if isinstance(v, tuple):
                    raise Undecided("raw read of vector header")
                v = self.tobv(st, v, 8 * n)
                k = off - co
                return z3.Extract(8 * k + 7, 8 * k, v)
        b = self.fresh("undef", 8)
        o.cells[off] = (1, b)
        return b

    def cell_store(self, st, o, off, n, v):
        for co in list(o.cells):
            cn, cv = o.cells[co]
            if co < off + n and off < co + cn:
                del o.cells[co]
                if co >= off and co + cn <= off + n:
                    continue
                cv = self.tobv(st, cv, 8 * cn)
                for k in range(cn):
                    if not (off <= co + k < off + n):
                        o.cells[co + k] = (1, z3.Extract(8 * k + 7, 8 * k, cv))
        o.cells[off] = (n, v)

    # aggregate copies ------------------------------------------------
    def leaves_at(self, p, n):
        """scalar leaves [(rel off, Ty)] of the n bytes at p, or None if the type there is unknown"""
        if isinstance(p, z3.ExprRef):
            return None
        if p.is_local() and not p.is_elem():
            o = p.tag
            return None
        if p.is_elem():
            et = self.etype.get(p.tag)
            if et is None:
                return None
            mod, ty = et
            ls = mod.leaves(ty)
        else:
            ent = self.find_type(p.tag)
            if ent is None:
                return None
            mod, ty = ent
            ls = mod.leaves(ty)
        return [(o - p.off, t) for o, t in ls if p.off <= o < p.off + n]

    def find_type(self, tag):
        for m in self.prog.mods:
            for pre in ("class.", "struct.", "union."):
                if pre + tag in m.types:
                    return m, ir.Ty("named", pre + tag)
        return None

    def typed_as(self, st, p, q, n):
        """a bare pointer takes the class of the local object it is copied to or from"""
        if isinstance(p, z3.ExprRef) and isinstance(q, Ptr) and q.is_local() and not q.is_elem() and q.off == 0:
            o = st.objs[q.tag]
            if o.ty is not None and o.ty.k == "named" and o.ty.a.split(".", 1)[0] in ("class", "struct") and n <= o.size < n + 8:
                return Ptr(o.ty.a.split(".", 1)[1], (p,), 0)
        return p

    def memcpy(self, st, d, s, n):
        d, s = self.typed_as(st, d, s, n), self.typed_as(st, s, d, n)
        ls = self.leaves_at(s, n) or self.leaves_at(d, n)
        if ls is None:
            for q in (s, d):
                if isinstance(q, Ptr) and q.is_local() and not q.is_elem():
                    o = st.objs[q.tag]
                    if o.ty is not None:
                        ls = [(k - q.off, t) for k, t in o.mod.leaves(o.ty) if q.off <= k < q.off + n]
                        # both local: copy cells verbatim
                        break
        sl = isinstance(s, Ptr) and s.is_local() and not s.is_elem()
        dl = isinstance(d, Ptr) and d.is_local() and not d.is_elem()
        if sl and dl:
            so, do = st.objs[s.tag], st.objs[d.tag]
            items = [(co, c) for co, c in so.cells.items() if s.off <= co < s.off + n]
            for co, (cn, v) in so.cells.items():
                if co < s.off < co + cn:
                    raise Undecided("copy from the middle of a cell")
            for k in list(do.cells):
                cn = do.cells[k][0]
                if k < d.off + n and d.off < k + cn:
                    if k >= d.off and k + cn <= d.off + n:
                        del do.cells[k]
            for co, (cn, v) in items:
                if co + cn > s.off + n:
                    v = self.tobv(st, v, 8 * cn)
                    keep = s.off + n - co
                    for kk in range(keep):
                        self.cell_store(st, do, d.off + co - s.off + kk, 1, z3.Extract(8 * kk + 7, 8 * kk, v))
                    continue
                self.cell_store(st, do, d.off + co - s.off, cn, v)
            return
        if ls is None:
            if n in (1, 2, 4, 8):
                ls = [(0, ir.I[8 * n])]
            else:
                raise Undecided(f"memcpy of {n} bytes with unknown layout {d} {s}")
        for o, t in ls:
            if t.k == "vector":
                raise Undecided("memcpy over a vector")
            self.store(st, self.padd(st, d, o), t, self.load(st, self.padd(st, s, o), t))

    def padd(self, st, p, off):
        if isinstance(p, z3.ExprRef):
            return p if off == 0 else p + off
        return p.with_off(off) if off else p

    # vector-level helpers (models, specs)
    def vkeys(self, st, p):
        """element keys known for the sequence of vector at p"""
        tag = f"{p.tag}+{p.off}[]"
        ks = set(k for k in self.mem0 if k[0] == tag) | set(k for k in st.mem if k[0] == tag)
        et = self.etype.get(tag)
        if et is not None:
            for o, t in et[0].leaves(et[1]):
                if t.k == "vector":
                    ks.add((tag, o, "len"))
                else:
                    ks.add((tag, o, 64 if t.k == "ptr" else t.a))
        return ks

    def vec_copy(self, st, d, s):
        """view(d) := view(s).  Sequences are copied key by key (whole 1-D slices when owner-free)."""
        dtag, stag = f"{d.tag}+{d.off}[]", f"{s.tag}+{s.off}[]"
        if stag in self.etype:
            self.etype.setdefault(dtag, self.etype[stag])
        elif dtag in self.etype:
            self.etype.setdefault(stag, self.etype[dtag])
        if dtag not in self.etype:
            raise Undecided("vector move with unknown element type")
        mod, ty = self.etype[dtag]
        if ty.k == "named" and tyname(ty.a) in FLAT:
            if d.is_local() or s.is_local():
                raise Undecided("move of flat vector through a local")
            self.wr(st, (d.tag, d.off, "base"), d.idx, self.rd(st, (s.tag, s.off, "base"), s.idx))
        else:
            for o, t in mod.leaves(ty):
                if t.k == "vector":
                    raise Undecided("move of nested vector")
                w = 64 if t.k == "ptr" else max(8, t.a)
                dk, sk = (dtag, o, w), (stag, o, w)
                sd, dd = len(s.idx) + 1, len(d.idx) + 1
                A = self.arr(st, sk, sd)
                D = self.arr(st, dk, dd)
                x = z3.BitVec("vx!", 64 * dd)
                i = z3.Extract(63, 0, x) if dd > 1 else x
                src = z3.Select(A, z3.Concat(*s.idx, i) if sd > 1 else i)
                if dd > 1:
                    own = z3.Extract(64 * dd - 1, 64, x)
                    body = z3.If(own == self._idx(d.idx), src, z3.Select(D, x))
                else:
                    body = src
                st.mem[dk] = z3.Lambda([x], body)
        self.set_vlen(st, d, self.vlen(st, s))

    # -------------------------------------------------------------- execution
    def start(self, fn, args, st=None):
        st = st or State()
        f = Frame()
        f.fn, f.block, f.prev, f.i, f.dst, f.normal, f.cnt = fn, fn.entry, None, 0, None, None, {}
        f.regs = {nm: a for (t, nm, info), a in zip(fn.args, args)}
        st.frames.append(f)
        return st

    def run(self, st, until=None):
        """Explore all paths. until=(depth, header, body): stop on transfers leaving/reentering that loop."""
        work = [st]
        outs = []
        while work:
            s = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Undecided("step limit")
                if self.deadline and time.time() > self.deadline:
                    raise Undecided("time limit")
                r = self.step(s)
                if r is None:
                    continue
                kind = r[0]
                if kind == "jump":
                    # list of (state, to)
                    nxt = []
                    for (t, to) in r[1]:
                        nxt += self.transfer(t, to, until, outs)
                    work.extend(nxt)
                    break
                if kind == "fork":
                    work.extend(r[1])
                    break
                if kind == "out":
                    if r[1].kind == "throw":
                        work.extend(self.unwind(r[1].st, until, outs))
                    else:
                        outs.append(r[1])
                    break
                if kind == "dead":
                    break
                raise AssertionError(kind)
        return outs

    def unwind(self, st, until, outs):
        """propagate an exception from the current frame"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.i - 1]
            if ins.op == "invoke":
                return self.transfer(st, ins.x["unwind"], until, outs)
            if until is not None and len(st.frames) == until[0]:
                outs.append(Out("throw", st))
                return []
            st.frames.pop()
        outs.append(Out("throw", st))
        return []

    def i_landingpad(self, st, fr, ins):
        fr.regs[ins.dst] = [self.fresh("exc"), BV(0, 32)]

    def i_resume(self, st, fr, ins):
        # continue unwinding from the caller
        return ("out", Out("throw", st))

    def transfer(self, st, to, until, outs):
        fr = st.frames[-1]
        depth = len(st.frames)
        src = fr.block
        if until is not None and depth == until[0] and fr.fn is until[3]:
            if to == until[1]:
                self.bind_phis(st, to)
                outs.append(Out("back", st))
                return []
            if to not in until[2]:
                outs.append(Out("exit", st, to))
                return []
        loops = fr.fn.loops
        if to in loops:
            if src not in loops[to]:
                if self.loop_mode[0] == "inv":
                    return self.do_loop(st, to, until, outs)
                fr.cnt[to] = 0
            else:
                k = fr.cnt.get(to, 0) + 1
                if k > self.loop_mode[1]:
                    self.truncated = True
                    return []
                fr.cnt[to] = k
        self.bind_phis(st, to)
        fr.prev, fr.block, fr.i = src, to, 0
        return [st]

    def bind_phis(self, st, to):
        fr = st.frames[-1]
        src = fr.block
        vals = {}
        for ins in fr.fn.blocks[to]:
            if ins.op != "phi":
                break
            for (b, v) in ins.a:
                if b == src:
                    vals[ins.dst] = self.val(st, v)
                    break
            else:
                raise Undecided("phi")
        fr.regs.update(vals)

    # ---- loops with invariants
    def do_loop(self, st, H, until, outs):
        fr = st.frames[-1]
        fn = fr.fn
        body = fn.loops[H]
        depth = len(st.frames)
        src = fr.block
        self.bind_phis(st, H)
        fr.prev, fr.block, fr.i = src, H, 0
        S0 = st
        phis = [i for i in fn.blocks[H] if i.op == "phi"]
        mods = set()
        self.quiet += 1
        rec0 = self.cmp_rec
        for rnd in range(12):
            S = self.havoc(S0, mods, depth)
            self.cmp_rec = []
            sub = self.run_from_header(S.copy(), (depth, H, body, fn))
            new = set()
            for o in sub:
                if o.kind == "back":
                    new |= self.diff(S, o.st, depth, phis) - mods
            if not new:
                break
            mods |= new
        else:
            raise Undecided("loop modification set did not stabilise")
        rec = self.cmp_rec
        self.cmp_rec = rec0
        cands = self.default_templates(S0, S, mods, depth, rec)
        cands += self.pred_templates(S0, S, mods, depth)
        if self.loop_templates:
            cands += self.loop_templates(self, S0, S, [m for m in mods], depth, fn, H)
        # init
        live = []
        def init_ok(c):
            try:
                f0 = c[1](S0)
            except Undecided:
                return False
            return self.valid(S0.pc, f0, 3000)
        live = [c for c in cands if init_ok(c)]
        for attempt in range(8):
            # a pass: execute the body under all live candidates, drop those not preserved; repeat until
            # a pass drops nothing (then every kept invariant was proved under exactly the kept ones)
            T = S.copy()
            invs = [c[1](T) for c in live]
            base_pc_len = len(T.pc)
            T.pc = T.pc + invs
            sub = self.run_from_header(T.copy(), (depth, H, body, fn))
            backs = [o.st for o in sub if o.kind == "back"]
            def holds(c, b, assume, ms, refute):
                pcb = b.pc[:base_pc_len] + assume + b.pc[base_pc_len + len(invs):]
                try:
                    g = c[1](b)
                except Undecided:
                    return False
                if refute:
                    return not self.refuted(pcb, g)
                split = self.positions(T, phis, depth, c) if "__" in str(c[0]) else []
                if self.valid(pcb, g, 2000 if split else ms):
                    return True
                if split and (self.by_position(split, pcb, g, ms) or self.valid(pcb, g, ms)):
                    return True
                if self.trace:
                    self.trace(c[0], pcb, g)
                return False
            dropped = False
            live_f = list(zip(live, invs))
            for refute in (True, False):
                changed = True
                while changed:
                    assume = [f for _, f in live_f]
                    keep = [(c, f) for (c, f) in live_f if all(holds(c, b, assume, self.houdini_ms, refute) for b in backs)]
                    changed = len(keep) < len(live_f)
                    dropped = dropped or changed
                    live_f = keep
                if dropped:
                    break
            live = [c for c, _ in live_f]
            if not dropped:
                break
        else:
            raise Undecided("loop invariants did not stabilise")
        self.quiet -= 1
        if self.quiet == 0 or dropped:
            sub = self.run_from_header(T.copy(), (depth, H, body, fn))
        self.stats["obligations"] += 2 * len(live)
        self.inv_log.append((fn.dem, H, [c[0] for c in live], len(cands)))
        res = []
        for o in sub:
            if o.kind == "exit":
                res += self.transfer(o.st, o.to, until, outs)
            elif o.kind == "back":
                pass
            elif o.kind == "throw":
                fr = o.st.frames[-1]
                fr_ins = fr.fn.blocks[fr.block][fr.i - 1]
                if until is not None and len(o.st.frames) == until[0]:
                    outs.append(o)
                    continue
                o.st.frames.pop()
                if not o.st.frames:
                    outs.append(o)
                    continue
                res += self.unwind(o.st, until, outs)
            else:
                outs.append(o)
        return res

    def positions(self, T, phis, depth, c):
        """(specification index, loop position) pairs that occur in a candidate invariant"""
        try:
            inv = c[1](T)
        except Undecided:
            return []
        free = free_consts(inv)
        pos = []
        for i in phis:
            v = T.frames[depth - 1].regs.get(i.dst)
            if z3.is_expr(v) and z3.is_const(v) and z3.is_bv(v) and v.size() == 64 and v.get_id() in free:
                pos.append(v)
        return [(a, p) for a in self.index_args if z3.is_bv(a) and a.size() == 64 and a.get_id() in free for p in pos]

    def by_position(self, split, pc, g, ms):
        """case split on: specification index == current loop position"""
        for a, p in split:
            if self.valid([z3.substitute(f, (a, p)) for f in pc], z3.substitute(g, (a, p)), ms) and self.valid(pc + [a != p], g, ms):
                return True
        return False

    def run_from_header(self, S, until):
        # the state is already positioned at the header with phis bound
        return self.run(S, until)

    def getmod(self, st, m, depth):
        if m[0] == "phi":
            return st.frames[depth - 1].regs[m[1]]
        if m[0] == "cell":
            return st.objs[m[1]].cells[m[2]][1]
        if m[0] == "mem":
            return st.mem[m[1]]
        raise KeyError(m)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b) or (a.sort() == b.sort() and z3.simplify(a).eq(z3.simplify(b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.tag == b.tag and a.off == b.off and a.vf == b.vf and len(a.idx) == len(b.idx) and all(self.same(x, y) for x, y in zip(a.idx, b.idx))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and a[0] == "len" and b[0] == "len":
            return self.same(a[1], b[1])
        return False

    def diff(self, S, B, depth, phis):
        mods = set()
        for i in phis:
            if not self.same(S.frames[depth - 1].regs[i.dst], B.frames[depth - 1].regs[i.dst]):
                mods.add(("phi", i.dst))
        for oid, o in S.objs.items():
            b = B.objs.get(oid)
            if b is None:
                continue
            offs = set(o.cells) | set(b.cells)
            for off in offs:
                c, d = o.cells.get(off), b.cells.get(off)
                if c is None and d is None:
                    continue
                if c is None or d is None or c[0] != d[0]:
                    mods.add(("cell", oid, off, (d or c)[0], c is None or d is None or c[0] != d[0]))
                elif not self.same(c[1], d[1]):
                    mods.add(("cell", oid, off, c[0], False))
        for k, a in B.mem.items():
            o = S.mem.get(k)
            if o is None:
                o = self.mem0.get(k)
            if o is not None and not a.eq(o):
                if k[0].startswith("%") and re.match(r"%\d+", k[0]).group(0) not in S.objs:
                    continue    # contents of a temporary created in the body
                mods.add(("mem", k))
        if len(B.log) != len(S.log):
            raise Undecided("ghost log grows in a loop")
        return mods

    def havoc_val(self, v, name):
        if isinstance(v, Ptr):
            if v.is_elem():
                return Ptr(v.tag, v.idx[:-1] + (self.fresh(name),), v.off, v.vf)
            if not v.is_local():
                return self.fresh(name)
            raise Undecided("loop-modified local pointer")
        if isinstance(v, z3.BoolRef):
            return self.fresh(name, 1)
        if isinstance(v, z3.BitVecRef):
            return self.fresh(name, v.size())
        if isinstance(v, tuple) and v[0] == "len":
            return ("len", z3.ZeroExt(64 - LENBITS, self.fresh(name, LENBITS)))
        raise Undecided("havoc of " + repr(v))

    def havoc(self, S0, mods, depth):
        S = S0.copy()
        for m in sorted(mods, key=repr):
            if m[0] == "phi":
                r = S.frames[depth - 1].regs
                r[m[1]] = self.havoc_val(r[m[1]], "h_" + m[1])
            elif m[0] == "cell":
                o = S.objs[m[1]]
                if m[4]:
                    # uninitialised before the loop (temporary): forget it
                    for co in list(o.cells):
                        cn = o.cells[co][0]
                        if co < m[2] + m[3] and m[2] < co + cn:
                            del o.cells[co]
                else:
                    n, v = o.cells[m[2]]
                    o.cells[m[2]] = (n, self.havoc_val(v, "h_c"))
            else:
                a = S.mem.get(m[1])
                if a is None:
                    a = self.mem0[m[1]]
                S.mem[m[1]] = z3.Array(f"H|{m[1][0]}|{m[1][1]}|{m[1][2]}!{next(self.cnt)}", a.sort().domain(), a.sort().range())
        return S

    def scalar(self, v):
        """the integer carried by a loop variable (element index for iterators)"""
        if isinstance(v, Ptr) and v.is_elem():
            return v.idx[-1]
        if isinstance(v, z3.BitVecRef):
            return v
        if isinstance(v, tuple) and v[0] == "len":
            return v[1]
        return None

    def loop_scalars(self, S0, mods, depth):
        res = []
        for m in sorted(mods, key=repr):
            if m[0] == "mem" or (m[0] == "cell" and m[4]):
                continue
            v0 = self.scalar(self.getmod(S0, m, depth))
            if v0 is None:
                continue
            g = (lambda m: lambda st: self.scalar(self.getmod(st, m, depth)))(m)
            res.append((m, g, v0))
        return res

    def default_templates(self, S0, S, mods, depth, rec):
        out = []
        sc = self.loop_scalars(S0, mods, depth)
        hv = set()
        for m, g, v0 in sc:
            hv |= term_vars(g(S))
        for m in mods:
            if m[0] == "mem":
                hv.add(S.mem[m[1]].decl().name())
        bounds = {}
        pre = set()
        for (x, y) in rec or []:
            for t in (x, y):
                vs = term_vars(t)
                if vs & hv:
                    continue
                if any(n.split("!")[0] in ("cap", "undef", "isnull") for n in vs):
                    continue
                bounds[z3.simplify(t).sexpr()] = t
        bounds = list(bounds.values())[:8]
        for m, g, v0 in sc:
            out.append((f"{m} >=u init", lambda st, g=g, v0=v0: z3.UGE(g(st), v0)))
            out.append((f"{m} <=u init", lambda st, g=g, v0=v0: z3.ULE(g(st), v0)))
            for t in bounds:
                if t.size() == v0.size():
                    out.append((f"{m} <=u bound", lambda st, g=g, t=t: z3.ULE(g(st), t)))
                    out.append((f"{m} <=s bound", lambda st, g=g, t=t: g(st) <= t))
        for (m1, g1, a0), (m2, g2, b0) in itertools.combinations(sc, 2):
            if a0.size() != b0.size():
                continue
            out.append((f"{m1}-init == {m2}-init", lambda st, g1=g1, g2=g2, a0=a0, b0=b0: g1(st) - a0 == g2(st) - b0))
            out.append((f"{m1}+{m2} const", lambda st, g1=g1, g2=g2, a0=a0, b0=b0: g1(st) + g2(st) == a0 + b0))
            out.append((f"2*({m1}-init) == {m2}-init", lambda st, g1=g1, g2=g2, a0=a0, b0=b0: 2 * (g1(st) - a0) == g2(st) - b0))
            out.append((f"2*({m2}-init) == {m1}-init", lambda st, g1=g1, g2=g2, a0=a0, b0=b0: 2 * (g2(st) - b0) == g1(st) - a0))
        for m in sorted(mods, key=repr):
            if m[0] == "mem" and not m[1][0].startswith("%"):
                k = m[1]
                out.append((f"frame of {k}", lambda st, k=k: self.frame_formula(st, k)))
                out.append((f"loop-frame of {k}", lambda st, k=k, a0=S0.mem.get(k, self.mem0.get(k)): z3.Select(st.mem.get(k, self.mem0.get(k)), self.skolem(k)) == z3.Select(a0, self.skolem(k))))
        return out

    def pred_templates(self, S0, S, mods, depth):
        out = []
        if not self.preds:
            return out
        sc = self.loop_scalars(S0, mods, depth)
        terms = []
        for m, g, v0 in sc:
            w = v0.size()
            if w == 64:
                terms.append((str(m), g))
            elif w in (8, 32):
                terms.append((f"zext {m}", lambda st, g=g, w=w: z3.ZeroExt(64 - w, g(st))))
                if w == 32:
                    terms.append((f"sext {m}", lambda st, g=g, w=w: z3.SignExt(64 - w, g(st))))
        for name, f, extra in self.preds:
            if "__all" in name:
                out.append((name, lambda st, f=f: self.forall(st, f)))
                continue
            if "__alq" in name:
                for combo in itertools.permutations(terms, extra - 1) if extra <= 3 else []:
                    out.append((f"{name}({', '.join(t[0] for t in combo)})",
                                lambda st, f=f, combo=combo: self.forall(st, f, [t[1](st) for t in combo])))
                continue
            if "__loc" in name or "__lcs" in name:
                # a candidate about a local vector (struct) of the function: tried on every local that is one
                for nm, v in S.frames[depth - 1].regs.items():
                    if not (isinstance(v, Ptr) and v.is_local() and v.off == 0 and v.tag in S.objs):
                        continue
                    o = S.objs[v.tag]
                    if o.ty is None or o.mod is None or o.ty.k != "named" or any(a == 0 and t.k == "vector" for a, t in o.mod.leaves(o.ty)) != ("__loc" in name):
                        continue
                    for combo in itertools.permutations(terms, extra - 1) if extra <= 4 else []:
                        out.append((f"{name}(%{nm}, {', '.join(t[0] for t in combo)})",
                                    lambda st, f=f, combo=combo, v=v: self.eval_pred(st, f, list(self.pred_args) + [v] + [t[1](st) for t in combo])))
                continue
            for combo in itertools.permutations(terms, extra) if extra <= 3 else []:
                out.append((f"{name}({', '.join(t[0] for t in combo)})",
                            lambda st, f=f, combo=combo: self.eval_pred(st, f, list(self.pred_args) + [t[1](st) for t in combo])))
        return out

    def eval_pred(self, st, f, args):
        t = st.copy()
        base = len(t.pc)
        t.frames = []
        self.quiet += 1
        rec, self.cmp_rec = self.cmp_rec, None
        mode, self.loop_mode = self.loop_mode, ("inv", 0)
        cb, self.check_bounds = self.check_bounds, False
        try:
            self.start(f, args, t)
            outs = self.run(t)
        finally:
            self.quiet -= 1
            self.cmp_rec = rec
            self.loop_mode = mode
            self.check_bounds = cb
        cs = []
        for o in outs:
            if o.kind != "ret":
                continue
            r = o.st.ret
            if not isinstance(r, z3.BoolRef):
                r = self.tobv(o.st, r) != 0
            cs.append(z3.Implies(z3.And(*o.st.pc[base:]), r))
        return z3.And(*cs) if cs else TRUE

    def forall(self, st, f, scalars=()):
        """closed formula: the predicate holds for every value of its extra arguments (but the last ones, if given)"""
        n = len(self.pred_args)
        vs = []
        for (t, nm, info) in f.args[n:len(f.args) - len(scalars)]:
            vs.append(z3.BitVec(f"q|{f.name}|{nm}", t.a if t.k == "i" else 64))
        body = self.eval_pred(st, f, list(self.pred_args) + vs + list(scalars))
        if z3.is_true(z3.simplify(body)):
            return TRUE
        return z3.ForAll(vs, body)

    # ---- frame conditions
    def skolem(self, key):
        return z3.BitVec(f"fx|{key[0]}|{key[1]}|{key[2]}", 64 * self.dims[key])

    def allowed(self, st, key, x):
        dims = self.dims[key]
        xs = [z3.Extract(64 * (dims - i) - 1, 64 * (dims - i - 1), x) for i in range(dims)]
        alts = []
        for (tag, off, n, idx) in st.allow:
            if key[0] == tag:
                if not (off <= key[1] < off + n):
                    continue
            else:
                m = re.match(re.escape(tag) + r"\+(\d+)[\[{]", key[0])
                if not m or not (off <= int(m.group(1)) < off + n):
                    continue
            alts.append(z3.And(*[a == b for a, b in zip(xs, idx)]))
        return z3.Or(*alts) if alts else FALSE

    def frame_formula(self, st, key):
        new = st.mem.get(key)
        old = (st.snap or {}).get(key)
        if old is None:
            old = self.mem0[key]
        if new is None or new.eq(old):
            return TRUE
        x = self.skolem(key)
        return z3.Or(self.allowed(st, key, x), z3.Select(new, x) == z3.Select(old, x))

    # ---- contract intrinsics
    def label(self, fr, v):
        if v.k == "glob" and v.v in fr.fn.mod.strs:
            return fr.fn.mod.strs[v.v]
        return repr(v)

    def check(self, st, c, label, where):
        if not self.quiet:
            t0 = time.time()
            r, model, sol = self.prove(st.pc, c, want_model=True)
            status = "discharged" if r == z3.unsat else "failed" if r == z3.sat else "undecided"
            self.checks.append(Check(label, status, str(model)[:6000] if model is not None else (sol.reason_unknown() if status == "undecided" else None), where, time.time() - t0))
            self.stats["obligations"] += 1
            if self.keep_smt and status == "discharged" and sol is not None:
                self.keep_smt(label, sol)
        st.pc.append(c)

    def vc_call(self, st, fr, ins, name):
        args = [self.val(st, a) for a in ins.a]
        asb = lambda v: v if isinstance(v, z3.BoolRef) else self.tobv(st, v) != 0
        r = None
        if name == "vc_assume":
            c = z3.simplify(asb(args[0]))
            st.pc.append(c)
            if z3.is_false(c) or (not z3.is_true(c) and not self.feasible(st.pc)):
                return ("dead",)
        elif name == "vc_check":
            self.check(st, asb(args[0]), self.label(fr, ins.a[1]), fr.fn.dem)
        elif name == "vc_cover":
            lb = self.label(fr, ins.a[0])
            if not self.quiet:
                if self.covers.get(lb) is not True:
                    self.covers[lb] = self.cover(st) or self.covers.get(lb, False)
        elif name == "vc_hint":
            st.hints.append(asb(args[0]))
        elif name == "vc_old":
            c = z3.simplify(asb(args[0]))
            st.old = z3.is_true(c)
        elif name in ("vc_assume_all", "vc_check_all"):
            suf = self.label(fr, ins.a[0])
            g = self.prog.func(self.family + "__all" + suf) or self.prog.func(self.family + "__fml" + suf)
            if g is None:
                raise Undecided("missing predicate __all" + suf)
            f = self.forall(st, g)
            if name == "vc_assume_all":
                st.pc.append(f)
            else:
                self.check(st, f, self.label(fr, ins.a[1]), fr.fn.dem)
        elif name == "vc_all":
            g = self.prog.func(self.family + "__all" + self.label(fr, ins.a[0])) or self.prog.func(self.family + "__fml" + self.label(fr, ins.a[0]))
            if g is None:
                raise Undecided("missing predicate __all" + self.label(fr, ins.a[0]))
            r = self.forall(st, g)
        elif name == "vc_snapshot":
            st.snap = dict(st.mem)
        elif name == "vc_writes":
            p, n = args[0], z3.simplify(args[1]).as_long()
            if isinstance(p, Ptr):
                if self.is_flat(p):
                    p = self.reroot(st, p)
                st.allow.append((p.tag, p.off, n, p.idx))
            else:
                st.allow.append(("@", 0, n, (p,)))
        elif name == "vc_frame":
            lb = self.label(fr, ins.a[0])
            for k in sorted(st.mem, key=repr):
                if k[0].startswith("%") or k[0].startswith("Ghost"):
                    continue
                f = self.frame_formula(st, k)
                if not z3.is_true(f):
                    self.check(st, f, f"{lb} [nothing else changes: {k[0]}+{k[1]}]", fr.fn.dem)
        elif name == "vc_sel":
            r = z3.If(asb(args[0]), self.tobv(st, args[1], 64), self.tobv(st, args[2], 64))
        elif name.startswith("vc_any_"):
            w = {"vc_any_u8": 8, "vc_any_u32": 32, "vc_any_u64": 64, "vc_any_bool": 1, "vc_any_ptr": 64}[name]
            r = self.fresh("any", w)
        elif name.startswith("vc_fn"):
            # uninterpreted function: vc_fnK(id, a1..aK)
            i = z3.simplify(args[0]).as_long()
            xs = [self.tobv(st, a) for a in args[1:]]
            f = z3.Function(f"uf{i}_{len(xs)}", *([z3.BitVecSort(64)] * (len(xs) + 1)))
            r = f(*xs)
        elif name == "vc_ghost":
            r = z3.BitVec("ghost", 64)
        elif name == "vc_dead":
            return ("dead",)
        else:
            raise Undecided("intrinsic " + name)
        return self.finish_call(st, ins, r)

    def cover(self, st):
        """True: a model of the whole path was found; "instances": only of its quantifier instances"""
        qs = any(has_quant(f) for f in st.pc)
        if st.hints and self.solve(st.pc + st.hints, 15000) == z3.sat:
            return True
        r = self.solve(st.pc, 5000 if qs else 20000)
        if r == z3.sat:
            return True
        if r == z3.unsat or not qs:
            return False
        return "instances" if self.qf_try([f for f in st.pc if not big_sum(f)], 10000)[0] == z3.sat else False

    # ---- one contract
    def verify(self, fname, seconds=120, mode=("inv", 0)):
        """Symbolically execute the contract function `fname`; returns (checks, covers, n_returns)"""
        f = self.prog.func(fname)
        if f is None:
            raise Undecided("contract function missing: " + fname)
        self.harness = f
        self.family = re.sub(r"_v\d+$", "", fname)     # cases _v0, _v1, .. of one contract share its predicates
        self.loop_mode = mode
        self.truncated = False
        self.quiet = 0
        self.checks, self.covers = [], {}
        self.deadline = time.time() + seconds
        self.steps = 0
        args = []
        st = State()
        for (t, nm, info) in f.args:
            if t.k == "i":
                args.append(z3.Bool("arg|" + nm) if t.a == 1 else z3.BitVec("arg|" + nm, t.a))
            elif t.k == "ptr":
                args.append(z3.BitVec("arg|" + nm, 64))
            else:
                raise Undecided("harness argument type")
        self.pred_args = args
        self.index_args = [a for a, (t, _, _) in zip(args, f.args) if t.k == "i"]
        self.preds = []
        for n in self.prog.index:
            if re.match(re.escape(self.family) + "__(inv|all|alq|loc|lcs)", n):
                g = self.prog.func(n)
                self.preds.append((n, g, len(g.args) - len(f.args)))
        self.start(f, args, st)
        outs = self.run(st)
        nret = sum(1 for o in outs if o.kind == "ret" and self.feasible(o.st.pc))
        self.outs = outs
        return self.checks, self.covers, nret

    def refuted(self, pc, goal):
        """a quick counterexample to a candidate invariant (may be wrong only towards dropping it)"""
        fs = [f for f in pc if not big_sum(f)] + [z3.Not(goal)]
        if big_sum(goal):
            return False
        if any(has_quant(f) for f in fs):
            return self.qf_try(fs, 1500)[0] == z3.sat
        return self.solve(fs, 1500) == z3.sat

    def valid(self, pc, f, ms=None):
        return self.prove(pc, f, ms) == z3.unsat

    # ---- instructions
    def val(self, st, v):
        k = v.k
        if k == "reg":
            return st.frames[-1].regs[v.v]
        if k == "int":
            if v.t.k == "i":
                return (TRUE if v.v else FALSE) if v.t.a == 1 else BV(v.v, v.t.a)
            raise Undecided("int const type")
        if k == "true":
            return TRUE
        if k == "false":
            return FALSE
        if k == "null":
            return BV(0)
        if k == "zeroinitializer":
            return self.zero(v.t)
        if k in ("undef", "poison"):
            t = v.t
            if t.k == "i":
                return self.fresh("undef", t.a)
            if t.k == "ptr":
                return self.fresh("undef", 64)
            if t.k == "struct":
                return [self.val(st, ir.V("undef", None, e)) for e in t.a]
            if t.k == "fp":
                return self.fresh("undef", t.a)
        if k == "glob":
            return z3.BitVec("glob|" + v.v, 64)
        if k == "fp":
            return self.fpconst(v)
        if k == "cexpr":
            m = re.match(r"\s*inttoptr\s*\(i64 (-?\d+) to ptr\)", v.v)
            if m:
                return BV(int(m.group(1)) & ((1 << 64) - 1), 64)
            return z3.BitVec("cexpr|" + v.v, 64)
        raise Undecided("value " + repr(v))

    def fpconst(self, v):
        import struct
        s = v.v
        if s.startswith("0x"):
            bits = int(s[2:], 16)
            if v.t.a == 32:
                bits = struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", bits))[0]))[0]
        else:
            bits = struct.unpack("<Q", struct.pack("<d", float(s)))[0]
            if v.t.a == 32:
                bits = struct.unpack("<I", struct.pack("<f", float(s)))[0]
        return BV(bits, v.t.a)

    def zero(self, t):
        if t.k == "i":
            return FALSE if t.a == 1 else BV(0, t.a)
        if t.k == "ptr":
            return BV(0)
        if t.k == "struct":
            return [self.zero(e) for e in t.a]
        raise Undecided("zero of type")

    def as_bv(self, st, v, w):
        if isinstance(v, z3.BoolRef):
            return z3.If(v, BV(1, w), BV(0, w))
        return self.tobv(st, v)

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.i]
        op = ins.op
        fr.i += 1
        h = getattr(self, "i_" + op, None)
        if h is None:
            raise Undecided(f"unsupported instruction: {ins.text[:120]} in {fr.fn.dem}")
        return h(st, fr, ins)

    def i_phi(self, st, fr, ins):
        return None  # bound at transfer

    def i_nop(self, st, fr, ins):
        return None

    def i_alloca(self, st, fr, ins):
        oid = f"%{next(self.cnt)}"
        st.objs[oid] = Obj(oid, fr.fn.mod.size(ins.t), ins.t, fr.fn.mod)
        fr.regs[ins.dst] = Ptr(oid, (), 0)

    def i_load(self, st, fr, ins):
        p = self.val(st, ins.a[0])
        t = ins.t
        fr.regs[ins.dst] = self.load_agg(st, fr.fn.mod, p, t)

    def load_agg(self, st, mod, p, t):
        if t.k in ("struct", "named"):
            rt = mod.resolve(t)
            if rt.k == "struct":
                res = []
                for k in range(len(rt.a)):
                    o, et = mod.field(t, k)
                    res.append(self.load_agg(st, mod, self.padd(st, p, o), et))
                return res
        if t.k == "arr":
            raise Undecided("aggregate load")
        return self.load(st, p, t)

    def i_store(self, st, fr, ins):
        v, p = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        if ins.t.k in ("struct", "named", "arr"):
            if isinstance(v, list):
                for k, e in enumerate(v):
                    o, et = fr.fn.mod.field(ins.t, k)
                    self.store(st, self.padd(st, p, o), et, e)
                return
            raise Undecided("aggregate store")
        self.store(st, p, ins.t, v)

    def i_gep(self, st, fr, ins):
        mod = fr.fn.mod
        p = self.val(st, ins.a[0])
        fr.regs[ins.dst] = self.gep(st, mod, p, ins.t, [(self.val(st, v)) for v in ins.a[1:]])

    def gep(self, st, mod, p, ty, idxs):
        def const(x):
            x = z3.simplify(x)
            if z3.is_bv_value(x):
                return x.as_signed_long()
            return None
        def sx(x):
            return x if x.size() == 64 else z3.SignExt(64 - x.size(), x)
        i0 = idxs[0]
        if isinstance(i0, Diff):
            i0 = self.tobv(st, i0)
        c0 = const(i0)
        size = mod.size(ty)
        isstruct = mod.resolve(ty).k == "struct"
        # ---- first index: pointer arithmetic in units of ty
        if c0 != 0 or len(idxs) == 1:
            if isinstance(p, Ptr) and p.vf is not None:
                p = Ptr(p.tag, p.idx, p.off)
            if isinstance(p, Ptr) and p.is_elem():
                et = self.etype.get(p.tag)
                if ty.k == "i" and ty.a == 8 and et is not None and et[0].size(et[1]) != 1:
                    # byte offset
                    if c0 is None:
                        raise Undecided("byte gep on element")
                    es = et[0].size(et[1])
                    q, r = divmod(p.off + c0, es)
                    p = Ptr(p.tag, p.idx[:-1] + (p.idx[-1] + BV(q),), r)
                else:
                    self.set_etype(p.tag, mod, ty)
                    et = self.etype[p.tag]
                    if et[0].size(et[1]) == size and p.off == 0:
                        p = Ptr(p.tag, p.idx[:-1] + (z3.simplify(p.idx[-1] + sx(i0)),), 0)
                    elif c0 is not None:
                        es = et[0].size(et[1])
                        q, r = divmod(p.off + c0 * size, es)
                        p = Ptr(p.tag, p.idx[:-1] + (z3.simplify(p.idx[-1] + BV(q)),), r)
                    else:
                        raise Undecided("element stride mismatch")
            elif isinstance(p, Ptr) and p.is_local():
                if c0 is None:
                    raise Undecided("symbolic index into a stack object")
                p = p.with_off(c0 * size)
            elif isinstance(p, Ptr):
                if c0 is None:
                    raise Undecided("symbolic offset inside an object")
                p = p.with_off(c0 * size)
            else:
                p = p + BV(size) * sx(i0) if c0 is None else p + BV(c0 * size)
        t = ty
        vf = None
        rest = idxs[1:]
        if rest and not isinstance(p, Ptr):
            # raw pointer gets its root type here
            if ty.k == "named":
                p = Ptr(tyname(ty.a), (p,), 0)
            elif ty.k == "struct" or ty.k == "arr":
                p = Ptr("@agg", (p,), 0)
        if rest and isinstance(p, Ptr) and p.is_elem():
            if not (p.tag in self.etype):
                self.set_etype(p.tag, mod, ty)
            if self.is_flat(p):
                p = self.reroot(st, p)
        for x in rest:
            rt = mod.resolve(t)
            if rt.k == "struct":
                k = const(x)
                o, ft = mod.field(t, k)
                vf = None
                if t.k == "named" and "_Vector_impl_data" in t.a and "_Bvector" not in t.a:
                    vf = k
                p = Ptr(p.tag, p.idx, p.off + o, vf)
                t = ft
            elif rt.k == "arr":
                es = mod.size(rt.b)
                if p.is_local() and not p.is_elem():
                    k = const(x)
                    if k is None:
                        raise Undecided("symbolic index into a stack array")
                    p = Ptr(p.tag, p.idx, p.off + k * es)
                else:
                    tag = f"{p.tag}+{p.off}[a]"
                    self.set_etype(tag, mod, rt.b)
                    if self.check_bounds and not st.old and self.in_repo(st):
                        c = z3.simplify(z3.ULT(sx(x), BV(rt.a)))
                        if not z3.is_true(c):
                            self.check(st, c, "index within bounds of array " + p.tag, st.frames[-1].fn.dem)
                    xi = z3.simplify(sx(x))
                    if rt.a <= 64 and not z3.is_bv_value(xi) and self.in_repo(st):
                        if xi.num_args():       # name compound indices
                            nm = next((v for u, v in self.idx_names if u.eq(xi)), None)
                            if nm is None:
                                nm = self.fresh("ai")
                                self.idx_names.append((xi, nm))
                            st.pc.append(nm == xi)
                            xi = nm
                        if not any(xi.eq(u) for u, _ in self.splits):
                            self.splits.append((xi, rt.a))
                    p = Ptr(tag, p.idx + (xi,), 0)
                t = rt.b
            else:
                raise Undecided("gep into scalar")
        return p

    def arith(self, st, fr, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        op = ins.op
        w = ins.t.a
        if ins.t.k == "fp":
            raise Undecided("floating point")
        if w == 1:
            if op == "xor":
                return z3.Xor(a, b)
            if op == "and":
                return z3.And(a, b)
            if op == "or":
                return z3.Or(a, b)
            raise Undecided("i1 arithmetic")
        if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
            pa, pb = a.p, b.p
            if pa.is_elem() and pa.tag == pb.tag and all(self.same(x, y) for x, y in zip(pa.idx[:-1], pb.idx[:-1])) and pa.off == pb.off:
                return Diff(z3.simplify(pa.idx[-1] - pb.idx[-1]), pa.tag)
        if isinstance(a, Diff) and op == "sdiv":
            et = self.etype.get(a.tag)
            k = z3.simplify(b)
            if et is None or et[0].size(et[1]) == k.as_long():
                return a.d
            raise Undecided("stride mismatch in pointer difference")
        a, b = self.tobv(st, a), self.tobv(st, b)
        if op in ("and", "or", "xor"):
            x, y = boolish(a), boolish(b)
            if x is not None and y is not None:
                return z3.If({"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](x, y), BV(1, w), BV(0, w))
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr", "urem", "udiv", "srem", "sdiv") and "exact" not in ins.x and self.check_bounds and self.in_repo(st):
            c = z3.simplify(z3.ULT(b, BV(w, w)) if op in ("shl", "lshr", "ashr") else b != 0)
            if not z3.is_true(c):
                self.check(st, c, "shift amount below the width" if op in ("shl", "lshr", "ashr") else "divisor is not zero", st.frames[-1].fn.dem)
        if op == "shl":
            return a << b
        if op == "lshr":
            return z3.LShR(a, b)
        if op == "ashr":
            return a >> b
        if op == "urem":
            kb = z3.simplify(b)
            if not z3.is_bv_value(kb) and w == 64:
                if self.prove(st.pc, z3.And(b != 0, z3.ULT(b, BV(1 << 62)), z3.ULT(a, b + b)), 1500) == z3.unsat:
                    return z3.If(z3.ULT(a, b), a, a - b)      # less than two whole turns
            return z3.URem(a, b)
        if op == "udiv":
            return z3.UDiv(a, b)
        if op == "srem":
            return z3.SRem(a, b)
        if op == "sdiv":
            kb = z3.simplify(b)
            if "exact" in ins.x and z3.is_bv_value(kb):
                K = kb.as_long()
                t = self.exact_div(a, K)
                if t is not None:
                    return t
                r = self.fresh("q", w)
                st.pc.append(r * b == a)
                bound = 1 << (w - 2)
                st.pc.append(z3.And(r >= -(bound // K), r <= bound // K))
                return r
            if z3.is_bv_value(kb) and 1 < kb.as_long() < (1 << (w - 1)) and kb.as_long() & (kb.as_long() - 1) == 0:
                k = kb.as_long().bit_length() - 1      # round towards zero
                return (a + z3.LShR(a >> BV(w - 1, w), BV(w - k, w))) >> BV(k, w)
            return a / b
        raise Undecided(op)

    def exact_div(self, a, K):
        a = z3.simplify(a)
        if z3.is_app_of(a, z3.Z3_OP_BMUL) and a.num_args() == 2 and z3.is_bv_value(a.arg(0)):
            c = a.arg(0).as_long()
            if c == K:
                return a.arg(1)
            if c == (1 << a.size()) - K:
                return -a.arg(1)
        if z3.is_bv_value(a):
            v = a.as_signed_long()
            if v % K == 0:
                return BV(v // K, a.size())
        if z3.is_app_of(a, z3.Z3_OP_BADD):
            parts = [self.exact_div(a.arg(i), K) for i in range(a.num_args())]
            if all(p is not None for p in parts):
                r = parts[0]
                for p in parts[1:]:
                    r = r + p
                return r
        return None

    def _arith(self, st, fr, ins):
        fr.regs[ins.dst] = self.arith(st, fr, ins)
    for _n in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
        locals()["i_" + _n] = _arith
    del _n

    def i_icmp(self, st, fr, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        fr.regs[ins.dst] = self.icmp(st, ins.x, a, b)

    def icmp(self, st, c, a, b):
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.tag == b.tag and len(a.idx) == len(b.idx) and a.off == b.off and a.is_elem() \
                    and all(self.same(x, y) for x, y in zip(a.idx[:-1], b.idx[:-1])):
                a, b = a.idx[-1], b.idx[-1]
            elif a.tag == b.tag and len(a.idx) == len(b.idx) and a.off == b.off and a.is_elem() and not self.is_flat(a) and c in ("eq", "ne"):
                eq = z3.And(*[x == y for x, y in zip(a.idx, b.idx)])   # distinct vectors own distinct buffers
                return eq if c == "eq" else z3.Not(eq)
            elif a.is_local() and b.is_local() and not a.is_elem() and not b.is_elem():
                eq = (a.tag == b.tag and a.off == b.off)
                if c == "eq":
                    return z3.BoolVal(eq)
                if c == "ne":
                    return z3.BoolVal(not eq)
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if c == "eq":
                return a == b
            if c == "ne":
                return a != b
            a, b = self.as_bv(st, a, 8), self.as_bv(st, b, 8)
        # null tests of references into objects
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and isinstance(y, z3.ExprRef) and z3.is_bv_value(y) and y.as_long() == 0:
                if x.is_elem() and not self.is_flat(x):
                    # buffer pointer vs null: only deallocation guards test this
                    r = self.fresh("isnull", 1)
                    return r if c == "eq" else z3.Not(r)
                if (x.is_local() and not x.is_elem()) or x.off > 0 or x.is_elem():
                    return FALSE if c == "eq" else TRUE
        a, b = self.tobv(st, a), self.tobv(st, b)
        if c in ("eq", "ne") and z3.is_bv_value(b) and b.as_long() == 0 and not z3.is_bv_value(a):
            x = boolish(a)
            if x is not None:
                return x if c == "ne" else z3.Not(x)
        if self.cmp_rec is not None:
            self.cmp_rec.append((a, b))
        return {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
                "sgt": lambda: a > b, "sge": lambda: a >= b}[c]()

    def i_zext(self, st, fr, ins):
        a = self.val(st, ins.a[0])
        if isinstance(a, z3.BoolRef):
            fr.regs[ins.dst] = z3.If(a, BV(1, ins.t.a), BV(0, ins.t.a))
        else:
            a = self.tobv(st, a)
            fr.regs[ins.dst] = z3.ZeroExt(ins.t.a - a.size(), a)

    def i_sext(self, st, fr, ins):
        a = self.val(st, ins.a[0])
        if isinstance(a, z3.BoolRef):
            fr.regs[ins.dst] = z3.If(a, BV(-1, ins.t.a), BV(0, ins.t.a))
        else:
            a = self.tobv(st, a)
            fr.regs[ins.dst] = z3.SignExt(ins.t.a - a.size(), a)

    def i_trunc(self, st, fr, ins):
        a = self.tobv(st, self.val(st, ins.a[0]))
        if ins.t.a == 1:
            if isinstance(a, z3.BoolRef):
                fr.regs[ins.dst] = a
            elif boolish(a) is not None:
                fr.regs[ins.dst] = boolish(a)
            else:
                fr.regs[ins.dst] = z3.Extract(0, 0, a) == 1
        else:
            fr.regs[ins.dst] = z3.Extract(ins.t.a - 1, 0, a)

    def i_bitcast(self, st, fr, ins):
        fr.regs[ins.dst] = self.val(st, ins.a[0])

    def i_ptrtoint(self, st, fr, ins):
        a = self.val(st, ins.a[0])
        fr.regs[ins.dst] = PInt(a) if isinstance(a, Ptr) else a

    def i_inttoptr(self, st, fr, ins):
        a = self.val(st, ins.a[0])
        fr.regs[ins.dst] = a.p if isinstance(a, PInt) else a

    def i_select(self, st, fr, ins):
        c, a, b = [self.val(st, v) for v in ins.a]
        cs = z3.simplify(c)
        if z3.is_true(cs):
            r = a
        elif z3.is_false(cs):
            r = b
        elif isinstance(a, (Ptr, PInt, Diff)) or isinstance(b, (Ptr, PInt, Diff)):
            t = st.copy()
            t.pc.append(z3.Not(c))
            t.frames[-1].regs[ins.dst] = b
            st.pc.append(c)
            fr.regs[ins.dst] = a
            return ("fork", [x for x in (st, t) if self.feasible(x.pc)])
        else:
            r = z3.If(c, a, b)
        fr.regs[ins.dst] = r

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, ins.a[0])
        for k in ins.x:
            v = v[k]
        fr.regs[ins.dst] = v

    def i_insertvalue(self, st, fr, ins):
        v, e = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        v = list(v)
        if len(ins.x) != 1:
            raise Undecided("nested insertvalue")
        v[ins.x[0]] = e
        fr.regs[ins.dst] = v

    def i_br(self, st, fr, ins):
        return ("jump", [(st, ins.a[0])])

    def i_cbr(self, st, fr, ins):
        c = self.val(st, ins.a[0])
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return ("jump", [(st, ins.a[1])])
        if z3.is_false(cs):
            return ("jump", [(st, ins.a[2])])
        t = st.copy()
        st.pc.append(cs)
        t.pc.append(z3.Not(cs))
        res = []
        if self.feasible(st.pc):
            res.append((st, ins.a[1]))
            if self.feasible(t.pc):
                res.append((t, ins.a[2]))
        else:
            res.append((t, ins.a[2]))
        return ("jump", res)

    def i_switch(self, st, fr, ins):
        v = self.tobv(st, self.val(st, ins.a[0]))
        res = []
        nots = []
        for (k, l) in ins.a[2]:
            t = st.copy()
            c = v == BV(k, v.size())
            t.pc.append(c)
            nots.append(z3.Not(c))
            if self.feasible(t.pc):
                res.append((t, l))
        st.pc += nots
        if self.feasible(st.pc):
            res.append((st, ins.a[1]))
        return ("jump", res)

    def i_unreachable(self, st, fr, ins):
        return ("dead",)

    def i_ret(self, st, fr, ins):
        v = self.val(st, ins.a[0]) if ins.a else None
        st.frames.pop()
        if not st.frames:
            st.ret = v
            return ("out", Out("ret", st))
        g = st.frames[-1]
        if fr.dst is not None:
            g.regs[fr.dst] = v
        if fr.normal is not None:
            return ("jump", [(st, fr.normal)])
        return None

    # ---- calls
    def i_invoke(self, st, fr, ins):
        return self.i_call(st, fr, ins)

    def finish_call(self, st, ins, v):
        fr = st.frames[-1]
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        if ins.op == "invoke":
            return ("jump", [(st, ins.x["normal"])])
        return None

    def i_call(self, st, fr, ins):
        callee = ins.x["callee"]
        if callee.k != "glob":
            raise Undecided("indirect call")
        name = callee.v
        if name.startswith("vc_"):
            return self.vc_call(st, fr, ins, name)
        if NOOP.match(name):
            return self.finish_call(st, ins, None)
        if THROW.match(name):
            return ("out", Out("throw", st))
        dem = self.prog.demangle(name)
        args = [self.val(st, a) for a in ins.a]
        if STRINGY.search(dem):
            return self.finish_call(st, ins, self.fresh("str"))
        if any(g.fn.name == name for g in st.frames[:-1]) and False:
            pass
        for rx, fn in self.contracts:
            if isinstance(fn, str):
                if fn.startswith("rec:"):      # induction: only the recursive call is replaced
                    fn = fn[4:]
                    if not any(g.fn.name == name for g in st.frames):
                        continue
                each = fn.startswith("each:")      # "op applied to every element": the op's own code runs on an arbitrary one
                if each:
                    fn = fn[5:]
                if rx.search(dem) and not any(g.fn.name == fn for g in st.frames):
                    self.used_contracts.add(dem)
                    self.used_stubs.add(fn)
                    f = self.prog.func(fn)
                    if f is None:
                        raise Undecided("missing contract stub " + fn)
                    if each:
                        tf = self.prog.func(name)
                        clo = args[1]
                        k = next((i for i, q in enumerate(tf.args) if "coerce" in str(q[0]) + str(q[1])), None)
                        if k is not None:           # the closure is passed by value, field by field
                            op = self.closure_op(dem)
                            o = Obj(f"%{next(self.cnt)}", 8 * (len(args) - k))
                            for i, a in enumerate(args[k:]):
                                o.cells[8 * i] = (8, a)
                            st.objs[o.id] = o
                            clo = Ptr(o.id, (), 0)
                        else:
                            op = self.op_of(tf)
                        if op is None:
                            raise Undecided("no operation in " + dem)
                        x = self.fresh("elem", 64)
                        self.inlined.add(self.prog.demangle(op.name))
                        self.start(op, [clo, x], st)
                        g = st.frames[-1]
                        g.dst, g.normal = ins.dst, ins.x.get("normal")
                        self.start(f, (args[:k] if k is not None else [args[0]]) + [x], st)
                        st.frames[-1].dst = st.frames[-1].normal = None
                        return None
                    self.start(f, args, st)
                    g = st.frames[-1]
                    g.dst = ins.dst
                    g.normal = ins.x.get("normal")
                    return None
                continue
            if rx.search(dem) and not (self.skip_fn and self.skip_fn(dem, st)):
                self.used_contracts.add(dem)
                return self.finish_multi(st, ins, fn(self, st, args, ins, dem))
        for rx, fn in self.models + MODELS:
            m = rx.search(dem)
            if m:
                self.used_models.add(rx.pattern)
                r = fn(self, st, args, ins, dem)
                if isinstance(r, str) and r == "inline":
                    continue
                return self.finish_multi(st, ins, r)
        f = self.prog.func(name)
        if f is None:
            raise Undecided("no body for " + dem)
        if len(st.frames) > self.max_depth:
            raise Undecided("recursion depth")
        if sum(1 for g in st.frames if g.fn is f) >= 2:
            raise Undecided("recursion through " + dem)
        self.inlined.add(dem)
        self.start(f, args, st)
        g = st.frames[-1]
        g.dst = ins.dst
        g.normal = ins.x.get("normal")
        return None

    def closure_op(self, dem):
        """the call operator of the closure type a template is instantiated with"""
        m = re.search(r"<(.*?\$_\d+)>\(", dem)
        if not m:
            return None
        c = [n for n in self.prog.index if n.startswith("_ZZ") and self.prog.demangle(n).startswith(m.group(1) + "::operator()(")]
        return self.prog.func(c[0]) if len(c) == 1 else None

    def op_of(self, f):
        """the call operator that a template function applies to its elements"""
        names = set()
        for blk in f.blocks.values() if f else ():
            for i2 in blk:
                nm = i2.x.get("callee") if i2.op in ("call", "invoke") else None
                if nm is not None and nm.k == "glob" and "::operator()(" in self.prog.demangle(nm.v):
                    names.add(nm.v)
        return self.prog.func(names.pop()) if len(names) == 1 else None

    def finish_multi(self, st, ins, r):
        if isinstance(r, Out):
            return ("out", r)
        if isinstance(r, list):
            forks = []
            jumps = []
            for (s, v) in r:
                if isinstance(v, Out):
                    forks.append(("out", v))
                    continue
                x = self.finish_call(s, ins, v)
                if x is None:
                    forks.append(("st", s))
                else:
                    jumps += x[1]
            if any(k == "out" for k, _ in forks):
                raise Undecided("contract with throw outcome")
            if jumps:
                return ("jump", jumps)
            return ("fork", [s for _, s in forks])
        return self.finish_call(st, ins, r)

# -------------------------------------------------------------------- models of library primitives
MODELS = []
def model(rx):
    def d(f):
        MODELS.append((re.compile(rx), f))
        return f
    return d

@model(r"^llvm\.memcpy|^llvm\.memmove|^memcpy$|^memmove$")
def _m_memcpy(E, st, args, ins, dem):
    n = z3.simplify(args[2])
    if not z3.is_bv_value(n):
        raise Undecided("memcpy of symbolic size")
    if n.as_long():
        E.memcpy(st, args[0], args[1], n.as_long())
    return args[0]

@model(r"^llvm\.memset")
def _m_memset(E, st, args, ins, dem):
    n, v, p = z3.simplify(args[2]), z3.simplify(args[1]), args[0]
    if not (z3.is_bv_value(n) and z3.is_bv_value(v) and v.as_long() == 0):
        raise Undecided("memset")
    n = n.as_long()
    if isinstance(p, Ptr) and p.is_local() and not p.is_elem():
        o = st.objs[p.tag]
        ls = o.mod.leaves(o.ty) if o.ty is not None else []
        for off, t in ls:
            if p.off <= off < p.off + n:
                if t.k == "vector":
                    E.set_vlen(st, Ptr(p.tag, (), off), BV(0))
                else:
                    E.store(st, Ptr(p.tag, (), off), t, E.zero(t))
        return None
    ls = E.leaves_at(p, n)
    if ls is None:
        raise Undecided("memset layout")
    for off, t in ls:
        if t.k == "vector":
            E.set_vlen(st, p.with_off(off), BV(0))
        else:
            E.store(st, p.with_off(off), t, E.zero(t))
    return None

@model(r"^llvm\.abs\.i")
def _m_abs(E, st, args, ins, dem):
    a = args[0]
    return z3.If(a < 0, -a, a)

@model(r"^llvm\.(umin|umax|smin|smax)\.i")
def _m_minmax(E, st, args, ins, dem):
    a, b = args
    k = re.search(r"llvm\.(\w+)\.", dem).group(1)
    return {"umin": z3.If(z3.ULT(a, b), a, b), "umax": z3.If(z3.ULT(a, b), b, a), "smin": z3.If(a < b, a, b), "smax": z3.If(a < b, b, a)}[k]

@model(r"^llvm\.ctlz\.i(32|64)")
def _m_ctlz(E, st, args, ins, dem):
    a = args[0]
    w = a.size()
    r = BV(w, w)
    for k in range(w):
        r = z3.If(z3.Extract(k, k, a) == 1, BV(w - 1 - k, w), r)
    return r

@model(r"^llvm\.ctpop\.i(32|64)")
def _m_ctpop(E, st, args, ins, dem):
    a = args[0]
    w = a.size()
    r = BV(0, w)
    for k in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, a))
    return r

@model(r"^(llvm\.is\.constant|__builtin_is_constant)")
def _m_isconst(E, st, args, ins, dem):
    return FALSE

@model(r"^std::(__is_constant_evaluated|is_constant_evaluated)\(\)")
def _m_ice(E, st, args, ins, dem):
    return FALSE

# ---- std::vector primitives
@model(r"std::vector<.*>::(_M_realloc_insert|_M_realloc_append|_M_insert_aux)\b")
def _m_realloc(E, st, args, ins, dem):
    # reallocation is transparent: the in-place branch of push_back already covers this behaviour
    st.notes.append("realloc-pruned")
    return []

@model(r"^std::vector<unsigned char, [^()]*>::(size\(\) const|operator\[\]\()")
def _m_bytes(E, st, args, ins, dem):
    vec_elem_from_name(E, dem, _vloc(args[0]), st.frames[-1].fn.mod)     # no division by the element size tells it
    return "inline"

@model(r"std::vector<.*>::reserve\(")
def _m_reserve(E, st, args, ins, dem):
    return None

@model(r"std::vector<.*>::shrink_to_fit\(")
def _m_shrink(E, st, args, ins, dem):
    return None

def _vloc(p):
    if isinstance(p, Ptr):
        return Ptr(p.tag, p.idx, p.off)
    return Ptr("std::vector", (p,), 0)

@model(r"std::vector<.*>::~vector\(\)|std::_Vector_base<.*>::~_Vector_base\(\)|_M_deallocate\(")
def _m_vdtor(E, st, args, ins, dem):
    return None

def vec_elem_from_name(E, dem, loc, mod):
    """set element type of the vector at loc from the demangled class name if possible"""
    tag = f"{loc.tag}+{loc.off}[]"
    if tag in E.etype:
        return
    m = re.search(r"std::(?:vector|_Vector_base)<(.*?), std::allocator<", dem)
    if not m:
        return
    et = m.group(1).strip()
    if et.endswith("*"):
        E.etype[tag] = (mod, ir.PTR)
        return
    prim = {"unsigned long": 64, "long": 64, "unsigned int": 32, "int": 32, "unsigned char": 8}
    if et in prim:
        E.etype[tag] = (mod, ir.I[prim[et]])
        return
    ent = E.find_type(et)
    if ent:
        E.etype[tag] = ent

@model(r"std::_Vector_base<.*>::_Vector_impl_data::_Vector_impl_data\(std::_Vector_base<.*>::_Vector_impl_data&&\)$")
def _m_vmove(E, st, args, ins, dem):
    d, s = _vloc(args[0]), _vloc(args[1])
    vec_elem_from_name(E, dem, d, st.frames[-1].fn.mod)
    E.vec_copy(st, d, s)
    E.set_vlen(st, s, BV(0))
    return None

@model(r"std::_Vector_base<.*>::_Vector_impl_data::_M_swap_data\(")
def _m_vswap(E, st, args, ins, dem):
    a, b = _vloc(args[0]), _vloc(args[1])
    vec_elem_from_name(E, dem, a, st.frames[-1].fn.mod)
    tmp = f"%{next(E.cnt)}"
    st.objs[tmp] = Obj(tmp, 24)
    t = Ptr(tmp, (), 0)
    E.vec_copy(st, t, a)
    E.vec_copy(st, a, b)
    E.vec_copy(st, b, t)
    return None

@model(r"std::_Vector_base<.*>::_Vector_impl_data::_M_copy_data\(")
def _m_vcopydata(E, st, args, ins, dem):
    a, b = _vloc(args[0]), _vloc(args[1])
    vec_elem_from_name(E, dem, a, st.frames[-1].fn.mod)
    E.vec_copy(st, a, b)
    return None

@model(r"std::vector<.*>::vector\(std::vector<.*> const&\)$")
def _m_vcopyctor(E, st, args, ins, dem):
    a, b = _vloc(args[0]), _vloc(args[1])
    vec_elem_from_name(E, dem, a, st.frames[-1].fn.mod)
    E.vec_copy(st, a, b)
    return None

@model(r"^std::back_insert_iterator<std::vector<.*> ?> std::(move|copy)<")
def _m_append(E, st, args, ins, dem):
    """append the range to the vector"""
    first, last, out = args[0], args[1], args[2]
    d = _vloc(out)
    if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.is_elem() and first.tag == last.tag and first.off == 0 and last.off == 0):
        raise Undecided("append of an unknown range")
    m = re.match(r"^(.*)\+(\d+)\[\]$", first.tag)
    vec_elem_from_name(E, dem, d, st.frames[-1].fn.mod)
    n = z3.simplify(last.idx[-1] - first.idx[-1])
    dtag, stag = f"{d.tag}+{d.off}[]", first.tag
    if stag in E.etype:
        E.etype.setdefault(dtag, E.etype[stag])
    elif dtag in E.etype:
        E.etype.setdefault(stag, E.etype[dtag])
    if dtag not in E.etype:
        raise Undecided("append with unknown element type")
    mod, ty = E.etype[dtag]
    if ty.k == "named" and tyname(ty.a) in FLAT:
        raise Undecided("append of flat elements")
    ln = E.vlen(st, d)
    for o, t in mod.leaves(ty):
        if t.k == "vector":
            raise Undecided("append of nested vectors")
        wd = 64 if t.k == "ptr" else max(8, t.a)
        sd, dd = len(first.idx), len(d.idx) + 1
        A = E.arr(st, (stag, o, wd), sd)
        D = E.arr(st, (dtag, o, wd), dd)
        x = z3.BitVec("vx!", 64 * dd)
        i = z3.Extract(63, 0, x) if dd > 1 else x
        k = first.idx[-1] + (i - ln)
        src = z3.Select(A, z3.Concat(*first.idx[:-1], k) if sd > 1 else k)
        new = z3.UGE(i, ln)
        if dd > 1:
            new = z3.And(z3.Extract(64 * dd - 1, 64, x) == E._idx(d.idx), new)
        st.mem[(dtag, o, wd)] = z3.Lambda([x], z3.If(new, src, z3.Select(D, x)))
    E.set_vlen(st, d, ln + n)
    return out

@model(r"^std::vector<.*>::insert\(__gnu_cxx::__normal_iterator<.*>, unsigned long, .*(const&|&)\)$")
def _m_insert_n(E, st, args, ins, dem):
    """insert n copies of a scalar"""
    v, pos, n, val = args[0], args[1], args[2], args[3]
    d = _vloc(v)
    vec_elem_from_name(E, dem, d, st.frames[-1].fn.mod)
    dtag = f"{d.tag}+{d.off}[]"
    n = z3.simplify(n)
    if not (isinstance(pos, Ptr) and pos.is_elem() and pos.tag == dtag and z3.is_bv_value(n) and dtag in E.etype):
        raise Undecided("insertion at an unknown position")
    mod, ty = E.etype[dtag]
    if ty.k in ("named", "struct", "arr", "vector"):
        raise Undecided("insertion of structures")
    wd = 64 if ty.k == "ptr" else max(8, ty.a)
    x0 = E.tobv(st, E.load(st, val, ty), wd)
    dd = len(d.idx) + 1
    D = E.arr(st, (dtag, 0, wd), dd)
    ln = E.vlen(st, d)
    x = z3.BitVec("vx!", 64 * dd)
    i = z3.Extract(63, 0, x) if dd > 1 else x
    k = pos.idx[-1]
    at = lambda j: z3.Select(D, z3.Concat(z3.Extract(64 * dd - 1, 64, x), j) if dd > 1 else j)
    new = z3.If(z3.ULT(i, k), at(i), z3.If(z3.ULT(i, k + n), x0, at(i - n)))
    if dd > 1:
        new = z3.If(z3.Extract(64 * dd - 1, 64, x) == E._idx(d.idx), new, z3.Select(D, x))
    E.check(st, z3.ULE(k, ln), "insertion position within the vector", st.frames[-1].fn.dem)
    st.mem[(dtag, 0, wd)] = z3.Lambda([x], new)
    E.set_vlen(st, d, ln + n)
    return Ptr(dtag, d.idx + (k,), 0)

@model(r"\bstd::__find_if<.*_Iter_(pred|equals_val)<")
def _m_find_if(E, st, args, ins, dem):
    """the first element satisfying the predicate: the predicate's own code is evaluated at an arbitrary element"""
    f = E.prog.func(ins.x["callee"].v)
    op = None
    for blk in f.blocks.values():
        for i2 in blk:
            if i2.op in ("call", "invoke"):
                nm = i2.x.get("callee")
                if nm is not None and nm.k == "glob" and re.search(r"__gnu_cxx::__ops::_Iter_(pred|equals_val)<.*operator\(\)", E.prog.demangle(nm.v)):
                    op = E.prog.func(nm.v)
    if op is None:
        return "inline"
    first, last = args[0], args[1]
    if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.is_elem() and first.tag == last.tag):
        raise Undecided("search over an unknown range")
    tmp = f"%{next(E.cnt)}"
    o = Obj(tmp, 8)
    o.cells[0] = (8, args[2])
    st.objs[tmp] = o
    lo, hi = first.idx[-1], last.idx[-1]
    def pred(j):
        return E.eval_pred(st, op, [Ptr(tmp, (), 0), Ptr(first.tag, first.idx[:-1] + (j,), 0)])
    r = E.fresh("found", 64)
    st.pc.append(z3.And(z3.ULE(lo, r), z3.ULE(r, hi)))
    st.pc.append(z3.Implies(r != hi, pred(r)))
    j = z3.BitVec(f"fj|{r.decl().name()}", 64)
    st.pc.append(z3.ForAll([j], z3.Implies(z3.And(z3.ULE(lo, j), z3.ULT(j, r)), z3.Not(pred(j)))))
    return Ptr(first.tag, first.idx[:-1] + (r,), 0)
