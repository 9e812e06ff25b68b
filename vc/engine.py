import os
"""VC generator: symbolic execution of the LLVM IR of the real code against contracts.

* every branch forks, infeasible paths are pruned by the solver
* loops are cut at their header by an inductive invariant (loops whose exit test is concrete in every
  iteration are unrolled completely, which is exact); the invariant is the largest subset of a candidate
  set that is (a) true on entry and (b) preserved by an arbitrary iteration (Houdini); both facts are
  solver-discharged obligations
* calls: contract/stub given by the harness (C++), library contract (lib.py), else the body
* obligations: v_assert/v_eq of the harness, memory bounds, assert() of the real code, defined
  float->int conversion, no unexpected exception
"""
import time, math, re, subprocess
from fractions import Fraction
import z3
from irparse import *
from irparse import Unsupported
import dom as D
from dom import b_not, b_and, b_or, b_xor, b_ite, zb, sgn, is_c


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Fn:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return "&" + self.name


class Off:
    """linear byte offset: const + sum(coef * int term)"""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=None):
        self.c, self.t = c, t or {}

    def is_const(self):
        return not self.t

    def add(self, o, k=1):
        t = dict(self.t)
        for i, (e, c) in o.t.items():
            n = t[i][1] + k * c if i in t else k * c
            if n:
                t[i] = (e, n)
            else:
                t.pop(i, None)
        return Off(self.c + k * o.c, t)

    def scale(self, k):
        return Off(self.c * k, {i: (e, c * k) for i, (e, c) in self.t.items()} if k else {})

    def div(self, d):
        if self.c % d or any(c % d for _, c in self.t.values()):
            return None
        return Off(self.c // d, {i: (e, c // d) for i, (e, c) in self.t.items()})

    def term(self, dom):
        """as an i64 term of the domain (math mode: signed mathematical value)"""
        if not self.t:
            return self.c & ((1 << 64) - 1) if dom.mode == "bits" else self.c
        r = None
        for e, c in self.t.values():
            if dom.mode == "bits":
                x = e if c == 1 else z3.BitVecVal(c & ((1 << 64) - 1), 64) * e
            else:
                x = e if c == 1 else z3.IntVal(c) * e
            r = x if r is None else r + x
        if self.c:
            r = r + (z3.BitVecVal(self.c & ((1 << 64) - 1), 64) if dom.mode == "bits" else z3.IntVal(self.c))
        return r

    def same(self, o):
        return self.c == o.c and {i: c for i, (_, c) in self.t.items()} == {i: c for i, (_, c) in o.t.items()}

    def __repr__(self):
        return "+".join([str(self.c)] + ["%d*%s" % (c, e) for e, c in self.t.values()])


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=None):
        self.o, self.off = o, off or Off()

    def __repr__(self):
        return "<%s+%r>" % (self.o, self.off)


NULL = Ptr(None)


class PtrInt:
    """integer obtained from a pointer (ptrtoint)"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Obj:
    """static facts about a memory object"""
    __slots__ = ("id", "name", "size", "lazy", "const", "stack", "gname")

    def __init__(self, id, name, size, lazy=False, const=False, stack=False, gname=None):
        self.id, self.name, self.size, self.lazy, self.const = id, name, size, lazy, const
        self.stack, self.gname = stack, gname

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


class OS:
    """object content (immutable; copied on write)"""
    __slots__ = ("cells", "fills", "arr", "per", "freed")

    def __init__(self, cells=None, fills=(), arr=None, per=None, freed=False):
        self.cells, self.fills, self.arr, self.per, self.freed = cells or {}, fills, arr, per, freed

    def copy(self):
        return OS(dict(self.cells), self.fills, self.arr, self.per, self.freed)


class State:
    __slots__ = ("eng", "pc", "mem", "wlog", "nd", "pcids", "cnt", "wit")

    def __init__(self, eng):
        self.eng, self.pc, self.mem, self.wlog, self.nd = eng, [], {}, [], []
        self.pcids = set()
        self.cnt = {}
        self.wit = []

    def clone(self):
        s = State.__new__(State)
        s.eng, s.pc, s.mem, s.wlog, s.nd = self.eng, list(self.pc), dict(self.mem), list(self.wlog), list(self.nd)
        s.pcids = set(self.pcids)
        s.cnt = dict(self.cnt)
        s.wit = list(self.wit)
        return s

    def assume(self, c):
        if c is True:
            return
        c = zb(c)
        if c.get_id() in self.pcids:
            return
        self.pcids.add(c.get_id())
        self.pc.append(c)


class Outcome:
    __slots__ = ("kind", "st", "regs", "val", "blk", "pred")

    def __init__(self, kind, st, regs=None, val=None, blk=None, pred=None):
        self.kind, self.st, self.regs, self.val, self.blk, self.pred = kind, st, regs, val, blk, pred


class Oblig:
    __slots__ = ("name", "kind", "pc", "goal", "nd", "where", "res", "model", "solver", "time", "poly")

    def __init__(self, name, kind, pc, goal, nd, where):
        self.name, self.kind, self.pc, self.goal, self.nd, self.where = name, kind, pc, goal, nd, where
        self.res = self.model = self.solver = None
        self.time = 0
        self.poly = None


class PathLimit(Exception):
    pass


STD_BASE = {
    "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt19bad_optional_access": "_ZTISt9exception",
    "_ZTISt17bad_function_call": "_ZTISt9exception",
}


class Engine:
    def __init__(self, mod, mode="bits", opt=None, demangle=None):
        self.mod = mod
        self.opt = opt or {}
        self.dom = D.BitsDom(self) if mode == "bits" else D.MathDom(self)
        self.mode = mode
        self.objs = {}
        self.nobj = 0
        self.gobj = {}
        self.ginit = {}
        self.obligs = []
        self.oblig_on = True
        self.ecache = {}
        self.vmemo = {}
        self.ufs = {}
        self.cmp_log = None
        self.store_log = None
        self.stats = dict(paths=0, solver_calls=0, solver_s=0.0, loops=0, unrolled=0, inv_checks=0,
                          inv_kept=0, blocks=0)
        self.dem = demangle or {}
        self.functions = set()
        self.stubs_used = set()
        self.mathmemo = {}
        self.covers = set()
        self.keep = []               # keep z3 terms alive (ids are used as keys)
        self.divs = {}
        self.typeids = {}
        self.deadline = None
        self.watch = []
        self.loop_report = []
        self.loop_warm = self.loop_seen = None
        self.ghost_names = {}
        self.axcache = {}
        self.hmemo = {}
        self.check_to = self.opt.get("check_ms", 1500)
        import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------------ solver helpers
    def solver(self, ms):
        s = z3.Solver()
        s.set("timeout", ms * int(self.opt.get("slow", 1)))
        return s

    def check(self, pc, extra, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time budget exhausted")
        pc = self.hyps(pc, extra)
        key = (tuple(c.get_id() for c in pc), extra.get_id())
        if key in self.ecache:
            return self.ecache[key]
        t = time.time()
        s = self.solver(ms or self.check_to)
        s.add(*pc)
        s.add(extra)
        r = s.check()
        self.keep.append(extra)
        self.keep.extend(pc)
        self.stats["solver_calls"] += 1
        self.stats["solver_s"] += time.time() - t
        r = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
        if os.environ.get("VC_SLOW") and time.time() - t > 0.5:
            print("slow %.1fs %s %s [%d hyps] %s" % (time.time() - t, self.where, r, len(pc), str(extra).replace("\n", " ")[:160]), flush=True)
        self.ecache[key] = r
        return r

    def hard(self, e):
        """term involving real unknowns or products (math mode)"""
        i = e.get_id()
        r = self.hmemo.get(i)
        if r is not None:
            return r
        k = e.decl().kind() if z3.is_app(e) else None
        h = False
        if k is None:
            h = True
        elif k == z3.Z3_OP_UNINTERPRETED and z3.is_real(e):
            h = True
        elif k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and z3.is_real(e):
            h = sum(1 for c in e.children() if not z3.is_rational_value(c)) > 1 or \
                (k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)))
        elif k == z3.Z3_OP_POWER:
            h = True
        if not h:
            h = any(self.hard(c) for c in e.children())
        self.keep.append(e)
        self.hmemo[i] = h
        return h

    def hyps(self, pc, extra):
        """hypotheses used for a query (dropping hypotheses is sound)"""
        if self.mode == "math" and not self.hard(extra):
            pc = [c for c in pc if not self.hard(c)]
        return self.slice(pc, extra)

    def vars(self, e):
        """uninterpreted constants of a term"""
        i = e.get_id()
        r = self.vmemo.get(i)
        if r is not None:
            return r[1]
        acc = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            m = self.vmemo.get(j)
            if m is not None:
                acc |= m[1]
                continue
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(x.decl().name())
            else:
                st.extend(x.children())
        r = frozenset(acc)
        self.vmemo[i] = (e, r)
        return r

    def slice(self, pc, extra):
        """hypotheses connected to the query by shared variables (dropping hypotheses is sound)"""
        need = set(self.vars(extra))
        rest = [(c, self.vars(c)) for c in pc]
        sel = set()
        ch = True
        while ch:
            ch = False
            nr = []
            for c, v in rest:
                if not v or not v.isdisjoint(need):
                    sel.add(c.get_id())
                    if not v <= need:
                        need |= v
                        ch = True
                else:
                    nr.append((c, v))
            if len(nr) == len(rest):
                break
            rest = nr
        return [c for c in pc if c.get_id() in sel]

    def entails(self, st, goal, ms=None):
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        if goal.get_id() in st.pcids:
            return True
        return self.check(st.pc, z3.Not(goal), ms or 700) == "unsat"

    def feasible(self, st, cond):
        if isinstance(cond, bool):
            return cond
        g = z3.simplify(cond)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        if cond.get_id() in st.pcids:
            return True
        nc = z3.simplify(z3.Not(cond))
        if b_not(cond).get_id() in st.pcids:
            return False
        return self.check(st.pc, cond) != "unsat"

    def oblige(self, st, goal, name, kind, where=""):
        if goal is True:
            if self.oblig_on:
                self.obligs.append(Oblig(name, kind, None, None, None, where))
                self.obligs[-1].res, self.obligs[-1].solver = "valid", "folding"
            return
        if self.oblig_on:
            self.obligs.append(Oblig(name, kind, list(st.pc), zb(goal), list(st.nd), where))
        st.assume(goal)

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]

    # ------------------------------------------------------------------ real-mode helpers
    PIS = None

    def pi_const(self, v):
        if not self.opt.get("pi"):
            return None
        if Engine.PIS is None:
            Engine.PIS = {}
            for q in (Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(2), Fraction(1, 180),
                      Fraction(1, 360), Fraction(3, 2)):
                for s in (1, -1):
                    Engine.PIS[float(math.pi * q * s) if q.denominator in (1, 2, 4) else
                               float(s * math.pi / q.denominator * q.numerator)] = q * s
            Engine.PIS[math.pi / 180] = Fraction(1, 180)
        q = Engine.PIS.get(v)
        if q is None:
            return None
        return z3.RealVal(q) * self.PI()

    deferdiv = None

    def PI(self):
        return z3.Real("PI")

    def spec_div(self, f, ins):
        """is the division speculated, its only use being an arm of a select?"""
        m = f.__dict__.setdefault("_specdiv", {})
        if ins.res not in m:
            uses = 0
            sel = False
            pat = re.compile(r"%" + re.escape(ins.res) + r"(?![\w.$-])")
            for lines in f.blocks.values():
                for x in lines:
                    raw = x.raw if hasattr(x, "raw") else x
                    n = len(pat.findall(raw))
                    if n and not raw.strip().startswith("%" + ins.res + " ="):
                        uses += n
                        sel = " = select i1" in raw
            m[ins.res] = uses == 1 and sel
        return m[ins.res]

    def need_nonzero(self, st, b):
        if self.deferdiv is not None:
            self.deferdiv.append(b)
            return
        pol = self.opt.get("div0", "oblige")
        g = b != 0
        if pol == "oblige":
            self.oblige(st, g, "divisor nonzero (%s)" % self.where, "div0", self.where)
        else:
            st.assume(g)

    def divmod(self, st, a, b):
        key = (a.get_id(), b.get_id())
        if key not in self.divs:
            q = z3.Int(self.dom.name("q"))
            r = z3.Int(self.dom.name("r"))
            self.divs[key] = (a, b, q, r)
        a, b, q, r = self.divs[key]
        st.assume(z3.Implies(b > 0, z3.And(a == q * b + r, 0 <= r, r < b, q >= 0)))
        # lemma instances (uniqueness of quotient and remainder) for the loop counters in scope
        for (x, y) in st.cnt.get("pairs", ()):
            st.assume(z3.Implies(z3.And(b > 0, a == x * b + y, 0 <= y, y < b), z3.And(q == x, r == y)))
        for (_, b2, q2, r2) in list(self.divs.values()):
            pass
        return q, r

    # ------------------------------------------------------------------ memory
    def newobj(self, st, name, size, lazy=False, const=False, stack=False, gname=None):
        self.nobj += 1
        o = Obj(self.nobj, name, size, lazy, const, stack, gname)
        self.objs[o.id] = o
        if st is not None:
            st.mem[o.id] = OS()
        return o

    def os(self, st, o):
        r = st.mem.get(o.id)
        if r is None:
            r = self.ginit.get(o.id)
            if r is None:
                r = OS()
        return r

    def global_obj(self, name):
        if name in self.gobj:
            return self.gobj[name]
        if name not in self.mod.globals:
            o = self.newobj(None, "ext:" + name, None, lazy=True)
            self.gobj[name] = o
            return o
        ty, init, const = self.mod.globals[name]
        try:
            size = Off(self.mod.size(ty))
        except Unsupported:
            size = None
        o = self.newobj(None, "g:" + name, size, lazy=init is None, const=const, gname=name)
        self.gobj[name] = o
        c = OS()
        if init is not None and init[0] != "unsup":
            self.winit(c, 0, ty, init)
        elif init is not None:
            o.lazy = True
        self.ginit[o.id] = c
        return o

    def winit(self, c, off, ty, v):
        t = self.mod.resolve(ty)
        if v[0] == "zero":
            c.fills = c.fills + ((off, self.mod.size(t), 0),)
            return
        if v[0] == "undef":
            return
        if v[0] == "str":
            for i, b in enumerate(v[1]):
                c.cells[off + i] = (1, "i", b)
            return
        if v[0] == "agg":
            if t.k == "struct":
                for (et, ev), o in zip(v[1], self.mod.offsets(t)):
                    self.winit(c, off + o, et, ev)
            else:
                es = self.mod.size(t.el)
                for i, (et, ev) in enumerate(v[1]):
                    self.winit(c, off + i * es, et, ev)
            return
        val = self.const(v, t, None)
        c.cells[off] = (self.mod.size(t), self.tag(t), val)

    def tag(self, t):
        return {"int": "i", "ptr": "p", "double": "f", "float": "f"}.get(t.k) or self._badtag(t)

    def _badtag(self, t):
        raise Unsupported("memory access of type %r" % t)

    def const(self, v, t, regs):
        k = v[0]
        if k == "c":
            if t.k == "int" and t.n == 1:
                return bool(v[1])
            return v[1] & ((1 << t.n) - 1)
        if k == "f":
            return self.dom.fconst(v[1], 64 if t.k == "double" else 32)
        if k == "null":
            return NULL
        if k == "g":
            return self.gaddr(v[1])
        if k == "undef":
            return self.undef(t)
        if k == "zero":
            return self.zero(t)
        if k == "agg":
            return [self.const(ev, self.mod.resolve(et), regs) for et, ev in v[1]]
        if k == "gep":
            base = self.const(v[2][0][1], PTR, regs)
            return self.gep(None, v[1], base, [(tt, self.const(x, tt, regs)) for tt, x in v[2][1:]])
        if k == "cast":
            x = self.const(v[3], v[2], regs)
            if v[1] == "ptrtoint":
                return PtrInt(x)
            if v[1] == "inttoptr":
                return x.p if isinstance(x, PtrInt) else (NULL if x == 0 else self._unsup("inttoptr const"))
            return x
        if k == "bin":
            a, b = self.const(v[3], v[2], regs), self.const(v[4], v[2], regs)
            if v[1] == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return 0
            return D.int_fold(v[1], a, b, v[2].n)
        raise Unsupported("constant %r" % (v,))

    def _unsup(self, m):
        raise Unsupported(m)

    def zero(self, t):
        t = self.mod.resolve(t)
        if t.k == "int":
            return False if t.n == 1 else 0
        if t.k in ("double", "float"):
            return 0.0 if self.mode == "bits" else Fraction(0)
        if t.k == "ptr":
            return NULL
        if t.k == "struct":
            return [self.zero(e) for e in t.el]
        if t.k == "arr":
            return [self.zero(t.el) for _ in range(t.n)]
        raise Unsupported("zero %r" % t)

    def undef(self, t):
        t = self.mod.resolve(t)
        if t.k == "struct":
            return [self.undef(e) for e in t.el]
        if t.k == "arr":
            return [self.undef(t.el) for _ in range(t.n)]
        return UNDEF

    def gaddr(self, name):
        seen = 0
        while name in self.mod.aliases and seen < 5:
            v = self.mod.aliases[name]
            if v[0] == "g":
                name = v[1]
            else:
                return self.const(v, PTR, None)
            seen += 1
        if name in self.mod.funcs:
            return Fn(name)
        return Ptr(self.global_obj(name))

    def int_off(self, v, n=64):
        """integer value -> Off"""
        if isinstance(v, bool):
            return Off(int(v))
        if isinstance(v, int):
            return Off(sgn(v, n))
        e = v
        if self.mode == "bits":
            e = z3.simplify(v)
        return self._lin(e, n)

    def _lin(self, e, n):
        if z3.is_bv_value(e):
            return Off(sgn(e.as_long(), e.size()))
        if z3.is_int_value(e):
            return Off(e.as_long())
        d = e.decl().kind()
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_ADD):
            r = Off()
            for c in e.children():
                r = r.add(self._lin(c, n))
            return r
        if d in (z3.Z3_OP_SUB, z3.Z3_OP_BSUB):
            r = self._lin(e.arg(0), n)
            for c in e.children()[1:]:
                r = r.add(self._lin(c, n), -1)
            return r
        if d in (z3.Z3_OP_UMINUS, z3.Z3_OP_BNEG):
            return self._lin(e.arg(0), n).scale(-1)
        if d in (z3.Z3_OP_BMUL, z3.Z3_OP_MUL) and (z3.is_bv_value(e.arg(0)) or z3.is_int_value(e.arg(0))):
            k = e.arg(0).as_long()
            if z3.is_bv_value(e.arg(0)):
                k = sgn(k, e.arg(0).size())
            rest = e.children()[1:]
            r = rest[0]
            for x in rest[1:]:
                r = r * x
            return self._lin(r, n).scale(k)
        self.keep.append(e)
        return Off(0, {e.get_id(): (e, 1)})

    def gep(self, st, bty, base, idx):
        if isinstance(base, Fn):
            return base
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        off = base.off
        t = bty
        first = True
        for ity, iv in idx:
            if isinstance(iv, Undef):
                raise Unsupported("gep undef")
            if first:
                off = off.add(self.sidx(st, iv, ity.n).scale(self.mod.size(t)))
                first = False
                continue
            t = self.mod.resolve(t)
            if t.k == "struct":
                off = off.add(Off(self.mod.offsets(t)[iv]))
                t = t.el[iv]
            else:
                t = t.el
                off = off.add(self.sidx(st, iv, ity.n).scale(self.mod.size(t)))
        return Ptr(base.o, off)

    def sidx(self, st, iv, n):
        if n != 64 and not isinstance(iv, int):
            iv = self.dom.sext(iv, n, 64)
        if self.mode == "math" and not isinstance(iv, int):
            iv = self.dom.s(iv, 64, st)
        if isinstance(iv, int):
            return Off(sgn(iv, n))
        return self.int_off(iv)

    # offset arithmetic predicates
    def off_ge0_lt(self, off, size, sz):
        """off >= 0 and off + sz <= size, as bool/term"""
        if off.is_const() and size.is_const():
            return 0 <= off.c and off.c + sz <= size.c
        for d in (sz, 1):
            a, b = off.div(d), size.div(d)
            if a is not None and b is not None:
                break
        k = sz // d
        A, B = a.term(self.dom), b.term(self.dom)
        if self.mode == "math":
            A, B = self.dom.zi(A, 64), self.dom.zi(B, 64)
            return z3.And(A >= 0, A + k <= B)
        A, B = self.dom.zi(A, 64), self.dom.zi(B, 64)
        if k == 1:
            return z3.ULT(A, B)
        return z3.And(z3.ULE(A, B), z3.UGE(B - A, z3.BitVecVal(k, 64)))

    def access(self, st, p, sz, what):
        """bounds obligation; returns (obj, off)"""
        if isinstance(p, Undef):
            raise Unsupported("access through undefined pointer")
        if isinstance(p, Fn):
            raise Unsupported("access to function")
        if not isinstance(p, Ptr):
            raise Unsupported("access through %r" % (p,))
        if p.o is None:
            self.oblige(st, False, "no null pointer access (%s)" % self.where, "bounds", self.where)
            return None, None
        o = p.o
        if self.os(st, o).freed:
            self.oblige(st, False, "no use after free (%s)" % self.where, "bounds", self.where)
            return None, None
        if o.size is not None:
            ok = self.off_ge0_lt(p.off, o.size, sz)
            if ok is not True:
                if ok is False or not self.entails(st, ok):
                    self.oblige(st, ok, "memory access in bounds (%s)" % self.where, "bounds", self.where)
                    if ok is False:
                        return None, None
                elif self.oblig_on:
                    self.obligs.append(Oblig("memory access in bounds (%s)" % self.where, "bounds", None, None, None,
                                             self.where))
                    self.obligs[-1].res, self.obligs[-1].solver = "valid", "z3"
        return o, p.off

    def load(self, st, p, ty):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            return [self.load(st, Ptr(p.o, p.off.add(Off(o))), e) for e, o in zip(t.el, self.mod.offsets(t))]
        if t.k == "arr":
            es = self.mod.size(t.el)
            return [self.load(st, Ptr(p.o, p.off.add(Off(i * es))), t.el) for i in range(t.n)]
        sz = self.mod.size(t)
        o, off = self.access(st, p, sz, "load")
        if o is None:
            raise PathEnd()
        return self.raw_load(st, o, off, t, sz)

    def raw_load(self, st, o, off, t, sz):
        c = self.os(st, o)
        tag = self.tag(t)
        if c.per is not None:
            return self.coerce(c.per(self, st, off, sz), t)
        if c.arr is not None:
            return self.arr_load(st, o, c, off, t, sz)
        if not off.is_const():
            self.to_array(st, o, sz, tag, t)
            c = self.os(st, o)
            return self.arr_load(st, o, c, off, t, sz)
        k = off.c
        cell = c.cells.get(k)
        if cell is not None and cell[0] == sz:
            return self.coerce2(cell[1], cell[2], t, sz)
        # overlapping cells?
        ov = [(a, x) for a, x in c.cells.items() if a < k + sz and a + x[0] > k]
        if not ov:
            for a, n, b in reversed(c.fills):
                if a <= k and k + sz <= a + n:
                    return self.from_bytes_const(b, t, sz)
            v = self.fresh(st, "%s+%d" % (o.name, k), t)
            if o.lazy or True:
                c2 = c.copy()
                c2.cells[k] = (sz, tag, v)
                st.mem[o.id] = c2
            return v
        return self.byte_load(st, o, c, k, t, sz)

    def from_bytes_const(self, b, t, sz):
        if t.k == "int":
            v = int.from_bytes(bytes([b]) * sz, "little")
            return bool(v & 1) if t.n == 1 else v & ((1 << t.n) - 1)
        if b == 0:
            return self.zero(t)
        if t.k in ("double", "float"):
            return self.dom.bits2fp(int.from_bytes(bytes([b]) * sz, "little"), sz * 8)
        raise Unsupported("pointer from fill bytes")

    def byte_load(self, st, o, c, k, t, sz):
        out = []
        for i in range(k, k + sz):
            hit = None
            for a, x in c.cells.items():
                if a <= i < a + x[0]:
                    hit = (a, x)
                    break
            if hit is None:
                for a, n, b in reversed(c.fills):
                    if a <= i < a + n:
                        hit = b
                        break
                if hit is None:
                    v = self.dom.fresh_int("pad", 8, st)
                    out.append(v)
                else:
                    out.append(hit)
                continue
            a, (n, tg, v) = hit
            if tg == "p":
                raise Unsupported("partial pointer load")
            if tg == "f":
                v = self.dom.fp2bits(v, n * 8)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, Undef):
                v = self.dom.fresh_int("undef", n * 8, st)
            if isinstance(v, int):
                out.append((v >> (8 * (i - a))) & 255)
            elif self.mode == "bits":
                if z3.is_bool(v):
                    v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                out.append(z3.Extract(8 * (i - a) + 7, 8 * (i - a), v) if n > 1 else v)
            else:
                if n == 1:
                    out.append(v)
                else:
                    raise Unsupported("partial load in math mode")
        if all(isinstance(x, int) for x in out):
            v = sum(x << (8 * j) for j, x in enumerate(out))
        elif self.mode == "bits":
            v = z3.simplify(z3.Concat(*[self.dom.zi(x, 8) for x in reversed(out)])) if sz > 1 else out[0]
        else:
            v = z3.Sum([self.dom.zi(x, 8) * (1 << (8 * j)) for j, x in enumerate(out)])
        return self.coerce2("i", v, t, sz)

    def coerce2(self, tag, v, t, sz):
        if isinstance(v, Undef):
            return v
        want = self.tag(t)
        if tag == want:
            return self.coerce(v, t)
        if tag == "f" and want == "i":
            return self.dom.fp2bits(v, sz * 8)
        if tag == "i" and want == "f":
            return self.dom.bits2fp(v, sz * 8)
        if tag == "p" and want == "i":
            return PtrInt(v) if isinstance(v, (Ptr, Fn)) else v
        if tag == "i" and want == "p":
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported("int reinterpreted as pointer")
        raise Unsupported("reinterpret %s as %s" % (tag, want))

    def coerce(self, v, t):
        if t.k == "int" and t.n == 1 and not isinstance(v, (bool, z3.BoolRef)):
            if isinstance(v, int):
                return bool(v & 1)
            if isinstance(v, Undef):
                return v
            return self.dom.icmp("ne", v, 0, 8)
        return v

    def fresh(self, st, base, t):
        if t.k == "int":
            return self.dom.fresh_int(base, t.n, st)
        if t.k in ("double", "float"):
            return self.dom.fresh_fp(base, 64 if t.k == "double" else 32, st)
        if t.k == "ptr":
            return UNDEF
        raise Unsupported("fresh %r" % t)

    # ---- arrays
    def to_array(self, st, o, es, tag, t):
        c = self.os(st, o)
        if tag == "p":
            raise Unsupported("symbolic index into pointer array %s (%s)" % (o.name, self.where))
        vs = self.dom.isort(es * 8) if tag == "i" else self.dom.fsort(es * 8)
        ix = z3.BitVecSort(64) if self.mode == "bits" else z3.IntSort()
        memo = self.__dict__.setdefault("basearr", {})
        a = memo.get((id(o), es, tag))
        if a is None:
            a = z3.Array(self.dom.name(o.name), ix, vs)
            memo[(id(o), es, tag)] = a
            self.keep.append(o)
        for (fo, fn, fb) in c.fills:
            if fo == 0 and o.size is not None and o.size.is_const() and fn == o.size.c and fb == 0:
                z = self.dom.zi(0, es * 8) if tag == "i" else self.dom.zf(0.0 if self.mode == "bits" else Fraction(0), es * 8)
                a = z3.K(ix, z)
            elif fb == 0 and fn <= 256 * es and fo % es == 0:
                z = self.dom.zi(0, es * 8) if tag == "i" else self.dom.zf(0.0 if self.mode == "bits" else Fraction(0), es * 8)
                for j in range(fn // es):
                    a = z3.Store(a, self.ix(fo // es + j), z)
            else:
                raise Unsupported("array from fill")
        for k, (n, tg, v) in sorted(c.cells.items()):
            if n != es or k % es:
                raise Unsupported("array conversion of mixed cells in %s" % o.name)
            v = self.coerce2(tg, v, t, n)
            if isinstance(v, Undef):
                continue
            a = z3.Store(a, self.ix(k // es), self.aval(v, tag, es))
        st.mem[o.id] = OS({}, (), (es, tag, a), None, c.freed)

    def ix(self, i):
        return z3.BitVecVal(i, 64) if self.mode == "bits" else z3.IntVal(i)

    def aval(self, v, tag, es):
        if tag == "i":
            if isinstance(v, z3.BoolRef):
                v = self.b2i(v, es * 8)
            return self.dom.zi(v, es * 8)
        return self.dom.zf(v, es * 8)

    def b2i(self, b, n):
        if isinstance(b, bool):
            return int(b)
        return self.dom.ite_int(b, 1, 0, n)

    def arr_load(self, st, o, c, off, t, sz):
        es, tag, a = c.arr
        if sz != es:
            raise Unsupported("array element width %d vs %d in %s (%s)" % (sz, es, o.name, self.where))
        i = off.div(es)
        if i is None:
            raise Unsupported("misaligned array access")
        ii = i.term(self.dom)
        v = z3.Select(a, self.dom.zi(ii, 64))
        if self.mode == "bits":
            v = z3.simplify(v)
        else:
            if tag == "i":
                st.assume(z3.And(v >= 0, v < (1 << (8 * es))))
        return self.coerce2(tag, v, t, sz)

    def store(self, st, p, v, ty):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            for e, o, x in zip(t.el, self.mod.offsets(t), v):
                self.store(st, Ptr(p.o, p.off.add(Off(o))), x, e)
            return
        if t.k == "arr":
            es = self.mod.size(t.el)
            for i, x in enumerate(v):
                self.store(st, Ptr(p.o, p.off.add(Off(i * es))), x, t.el)
            return
        sz = self.mod.size(t)
        o, off = self.access(st, p, sz, "store")
        if o is None:
            raise PathEnd()
        if o.const:
            self.oblige(st, False, "no write to constant (%s)" % self.where, "bounds", self.where)
            raise PathEnd()
        if t.k == "int" and t.n == 1:
            if not isinstance(v, (Undef,)):
                v = self.b2i(v, 8)
        self.raw_store(st, o, off, v, self.tag(t), sz)

    def raw_store(self, st, o, off, v, tag, sz):
        c = self.os(st, o)
        if isinstance(v, PtrInt):
            v, tag = v.p, "p"
        if c.per is not None:
            raise Unsupported("write into abstract object array %s" % o.name)
        if c.arr is None and not off.is_const():
            tt = {"i": Ty("int", sz * 8), "f": F64 if sz == 8 else F32}.get(tag)
            self.to_array(st, o, sz, tag, tt)
            c = self.os(st, o)
        if c.arr is not None:
            es, tg, a = c.arr
            if es != sz:
                raise Unsupported("array element store width (%s)" % self.where)
            i = off.div(es)
            if i is None:
                raise Unsupported("misaligned array store")
            if isinstance(v, Undef):
                v = self.fresh(st, "undef", Ty("int", es * 8) if tg == "i" else (F64 if es == 8 else F32))
            if tg != tag:
                v = self.coerce2(tag, v, Ty("int", es * 8) if tg == "i" else (F64 if es == 8 else F32), sz)
            if self.store_log is not None and isinstance(v, int):
                self.store_log.add(v)
            a = z3.Store(a, self.dom.zi(i.term(self.dom), 64), self.aval(v, tg, es))
            st.mem[o.id] = OS({}, (), (es, tg, a), None, c.freed)
            st.wlog.append((o.id, "arr", es, tg))
            return
        k = off.c
        c2 = c.copy()
        for a in [a for a, x in c.cells.items() if a < k + sz and a + x[0] > k and not (a == k and x[0] == sz)]:
            n, tg, x = c2.cells.pop(a)
            if a >= k and a + n <= k + sz:
                continue
            # keep the non overlapped bytes
            for i in range(n):
                if not (k <= a + i < k + sz):
                    if tg == "p" or isinstance(x, Undef):
                        continue
                    xb = self.dom.fp2bits(x, n * 8) if tg == "f" else x
                    if isinstance(xb, int):
                        c2.cells[a + i] = (1, "i", (xb >> (8 * i)) & 255)
                    elif self.mode == "bits":
                        c2.cells[a + i] = (1, "i", z3.Extract(8 * i + 7, 8 * i, xb))
                    else:
                        raise Unsupported("partial overwrite in math mode")
        c2.cells[k] = (sz, tag, v)
        st.mem[o.id] = c2
        st.wlog.append((o.id, k, sz, tag))

    # ------------------------------------------------------------------ execution
    def value(self, st, regs, v, t):
        if v[0] == "l":
            return regs[v[1]]
        return self.const(v, self.mod.resolve(t), regs)

    def ival(self, st, x, n):
        """materialise an integer"""
        if isinstance(x, Undef):
            return self.dom.fresh_int("undef", n, st)
        if isinstance(x, PtrInt):
            return x
        return x

    def call(self, st, name, args, where=""):
        """execute function `name`; list of Outcome ret/throw"""
        d = self.dem.get(name, name)
        m = self.lib.model(name, d)
        if m is not None:
            return m(st, args, self.mod.funcs.get(name))
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported("call to external function %s (%s)" % (d, self.where))
        self.functions.add(d)
        if self.depth > 60:
            raise Unsupported("call depth")
        regs = {}
        for (t, pn, a), v in zip(f.params, args):
            if "byval" in a and isinstance(v, Ptr):
                o = self.newobj(st, "byval", Off(self.mod.size(a["byval"])), stack=True)
                self.copy_mem(st, Ptr(o), v, Off(self.mod.size(a["byval"])))
                v = Ptr(o)
            regs[pn] = v
        self.depth += 1
        ow = self.where
        nobj0 = self.nobj
        try:
            outs = self.run(f, st, regs, f.entry, None, None)
        finally:
            self.depth -= 1
            self.where = ow
        if len(outs) > 1 and self.opt.get("merge"):
            outs = self.merge(outs, nobj0, self.mod.resolve(f.ret) if hasattr(f, "ret") else None)
        return outs

    def merge(self, outs, nobj0, rt):
        """join the returning paths of a call whose states differ in scalars only (exclusive branch conditions)"""
        rets = [o for o in outs if o.kind == "ret"]
        rest = [o for o in outs if o.kind != "ret"]
        if not 2 <= len(rets) <= 24:
            return outs
        changed = True
        while changed and len(rets) > 1:
            changed = False
            pairs = []
            for i in range(len(rets)):
                for j in range(i + 1, len(rets)):
                    a, b = rets[i].st.pc, rets[j].st.pc
                    k = 0
                    while k < len(a) and k < len(b) and a[k].eq(b[k]):
                        k += 1
                    pairs.append((k, i, j))
            for k, i, j in sorted(pairs, key=lambda x: -x[0]):
                m = self.merge2(rets[i], rets[j], k, nobj0, rt)
                if m is not None:
                    rets = [r for n, r in enumerate(rets) if n not in (i, j)] + [m]
                    changed = True
                    self.stats["merged"] = self.stats.get("merged", 0) + 1
                    break
        return rets + rest

    def merge2(self, x, y, k, nobj0, rt):
        A, B = x.st, y.st
        if k >= len(A.pc) or k >= len(B.pc):
            return None
        if not (z3.is_not(A.pc[k]) and A.pc[k].arg(0).eq(B.pc[k]) or
                z3.is_not(B.pc[k]) and B.pc[k].arg(0).eq(A.pc[k])):
            return None
        c = A.pc[k]
        if len(A.nd) != len(B.nd) or any(p[1] is not q[1] and not (isinstance(p[1], z3.ExprRef) and
                                         isinstance(q[1], z3.ExprRef) and p[1].eq(q[1])) for p, q in zip(A.nd, B.nd)):
            return None
        cnt, redo = A.cnt, ()
        for kk in set(A.cnt) | set(B.cnt):
            if kk in ("convs", "muls"):       # terms on the path about which facts were assumed
                pa, pb = A.cnt.get(kk, ()), B.cnt.get(kk, ())
                n = 0
                while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
                    n += 1
                if n < len(pa) or n < len(pb):
                    cnt = dict(cnt)
                    cnt[kk] = pa[:n]
                    if kk == "convs":
                        redo = pa[n:] + pb[n:]
                continue
            if A.cnt.get(kk) != B.cnt.get(kk):
                if os.environ.get("VC_MERGE"):
                    print("no merge: " + kk, self.where, flush=True)
                return None

        def mv(u, v, n):
            if u is v:
                return u
            if isinstance(u, z3.ExprRef) and isinstance(v, z3.ExprRef) and u.eq(v):
                return u
            if isinstance(u, (Ptr, PtrInt)) or isinstance(v, (Ptr, PtrInt)):
                if isinstance(u, Ptr) and isinstance(v, Ptr) and u.o is v.o and u.off.same(v.off):
                    return u
                return None
            if isinstance(u, (Undef, Fn, tuple, list, dict)) or isinstance(v, (Undef, Fn, tuple, list, dict)):
                return None
            return n(u, v)

        def cell(p, q):
            if p is q:
                return p
            if p[0] != q[0] or p[1] != q[1]:
                return None
            if p[1] == "i":
                def cv(u):
                    return self.b2i(u, 8 * p[0]) if isinstance(u, (bool, z3.BoolRef)) else u
                n = lambda u, v: self.dom.ite_int(c, cv(u), cv(v), 8 * p[0])
            elif p[1] == "f" and p[0] in (4, 8):
                if self.mode == "math" and (isinstance(p[2], float) or isinstance(q[2], float)):
                    return None
                n = lambda u, v: self.dom.ite_fp(c, u, v, 8 * p[0])
            else:
                return None
            r = mv(p[2], q[2], n)
            return None if r is None else (p[0], p[1], r)
        mem = {}
        for o in set(A.mem) | set(B.mem):
            ob = self.objs[o]
            if o > nobj0 and ob.stack:
                continue
            p, q = A.mem.get(o), B.mem.get(o)
            if p is q:
                mem[o] = p
                continue
            if o > nobj0:
                return None
            p, q = self.os(A, ob), self.os(B, ob)
            if p.fills != q.fills or p.arr is not q.arr or p.per is not q.per or p.freed != q.freed or \
                    set(p.cells) != set(q.cells):
                return None
            r = OS({}, p.fills, p.arr, p.per, p.freed)
            for kk in p.cells:
                z = cell(p.cells[kk], q.cells[kk])
                if z is None:
                    return None
                r.cells[kk] = z
            mem[o] = r
        val = x.val
        if rt is not None and rt.k in ("double", "float", "int"):
            if rt.k == "int":
                if rt.n == 1:
                    n = lambda u, v: b_ite(c, u, v)
                else:
                    n = lambda u, v: self.dom.ite_int(c, u, v, rt.n)
            else:
                if self.mode == "math" and (isinstance(x.val, float) or isinstance(y.val, float)) and x.val != y.val:
                    return None
                n = lambda u, v: self.dom.ite_fp(c, u, v, 64 if rt.k == "double" else 32)
            val = mv(x.val, y.val, n)
            if val is None:
                return None
        elif x.val is not None or y.val is not None:
            val = mv(x.val, y.val, lambda u, v: None)
            if val is None:
                return None
        m = State(self)
        m.pc = A.pc[:k]
        m.pcids = {t.get_id() for t in m.pc}
        m.mem, m.nd, m.cnt = mem, A.nd, cnt
        i = 0
        while i < len(A.wlog) and i < len(B.wlog) and A.wlog[i] == B.wlog[i]:
            i += 1
        m.wlog = A.wlog + B.wlog[i:]
        m.wit = A.wit + [w for w in B.wit if w not in A.wit]
        sa, sb = A.pc[k + 1:], B.pc[k + 1:]
        ia, ib = {t.get_id() for t in sa}, {t.get_id() for t in sb}
        for t in sa:
            if t.get_id() in ib:
                m.assume(t)
        for t in sa:
            if t.get_id() not in ib:
                m.assume(z3.Implies(c, t))
        for t in sb:
            if t.get_id() not in ia:
                m.assume(z3.Implies(B.pc[k], t))
        for a, r in redo:
            self.dom.conv_order(a, r, m)
        return Outcome("ret", m, None, val)

    depth = 0
    where = ""

    def run(self, f, st, regs, blk, pred, region, start=0):
        """explore from block; region: set of blocks (loop body) or None.
           Outcomes: ret/throw, and for a region: back (to its header) / exit."""
        results = []
        wl = [(st, regs, blk, pred, start)]
        loops = self.mod.loops(f)
        hdr = region[0] if region else None
        body = region[1] if region else None
        first = True
        while wl:
            st, regs, blk, pred, idx = wl.pop()
            if self.deadline and time.time() > self.deadline:
                raise PathLimit("time budget exhausted")
            if idx == 0 and not (first and region):
                if region:
                    if blk == hdr:
                        results.append(Outcome("back", st, regs, None, blk, pred))
                        continue
                    if blk not in body:
                        results.append(Outcome("exit", st, regs, None, blk, pred))
                        continue
                if blk in loops:
                    for o in self.loop(f, st, regs, blk, pred):
                        if o.kind == "exit":
                            wl.append((o.st, o.regs, o.blk, o.pred, 0))
                        else:
                            results.append(o)
                    first = False
                    continue
            first = False
            self.stats["blocks"] += 1
            if self.stats["blocks"] > self.opt.get("max_blocks", 200000):
                raise PathLimit("block limit")
            try:
                self.step_block(f, st, regs, blk, pred, idx, wl, results)
            except PathEnd:
                pass
        return results

    def enter(self, f, st, regs, blk, pred):
        """evaluate the phis of blk"""
        new = {}
        for ins in self.mod.block(f, blk):
            if ins.op != "phi":
                break
            for v, b in ins.a:
                if b == pred:
                    new[ins.res] = self.value(st, regs, v, ins.ty)
                    break
            else:
                raise Unsupported("phi without predecessor")
        regs.update(new)

    def step_block(self, f, st, regs, blk, pred, idx, wl, results):
        ins_list = self.mod.block(f, blk)
        if idx == 0:
            if pred != "__havoc__":
                self.enter(f, st, regs, blk, pred)
        dom = self.dom
        n = len(ins_list)
        i = idx
        self.where = self.fnshort(f.name)
        while i < n:
            ins = ins_list[i]
            i += 1
            op = ins.op
            if op == "phi":
                continue
            if op in ("br", "switch", "ret", "unreachable", "resume"):
                self.terminator(f, st, regs, blk, ins, wl, results)
                return
            if op in ("call", "invoke"):
                outs = self.do_call(f, st, regs, ins)
                if outs is None:
                    continue
                self.where = self.fnshort(f.name)
                conts = []
                for o in outs:
                    if o.kind == "ret":
                        r = regs if len(outs) == 1 else dict(regs)
                        if ins.res is not None:
                            r[ins.res] = o.val
                        if op == "invoke":
                            wl.append((o.st, r, ins.a[2], blk, 0))
                        else:
                            conts.append((o.st, r))
                    else:
                        if op == "invoke":
                            r = regs if len(outs) == 1 else dict(regs)
                            self.unwind(f, o.st, r, ins.a[3], blk, o.val, wl, results)
                        else:
                            results.append(Outcome("throw", o.st, None, o.val))
                if op == "invoke":
                    return
                if not conts:
                    return
                if len(conts) == 1:
                    st, regs = conts[0]
                    continue
                for s2, r2 in conts:
                    wl.append((s2, r2, blk, pred, i))
                return
            if op == "select":
                c = self.value(st, regs, ins.a[0], INT[1])
                a = self.value(st, regs, ins.a[1], ins.ty)
                b = self.value(st, regs, ins.a[2], ins.ty)
                if isinstance(c, Undef):
                    c = dom.fresh_int("undef", 1, st)
                if self.mode == "math":
                    for k, arm in ((1, c), (2, None)) if any(x.startswith("div0 ") for x in regs if isinstance(x, str)) else ():
                        nm = "div0 " + str(ins.a[k][-1] if isinstance(ins.a[k], tuple) else ins.a[k]).lstrip("%")
                        for d in regs.get(nm, ()):
                            cond = arm if arm is not None else b_not(c)
                            if cond is False:
                                continue
                            g = d != 0 if cond is True else z3.Implies(cond, d != 0)
                            if self.opt.get("div0", "oblige") == "oblige":
                                self.oblige(st, g, "divisor nonzero (%s)" % self.where, "div0", self.where)
                            else:
                                st.assume(g)
                if self.mode == "math" and not isinstance(c, bool):
                    if self.entails(st, c, 100):
                        c = True
                    elif self.entails(st, b_not(c), 100):
                        c = False
                if isinstance(c, bool):
                    regs[ins.res] = a if c else b
                    continue
                r = self.try_ite(st, c, a, b, ins.ty)
                if r is None:
                    # fork
                    for cc, v in ((c, a), (b_not(c), b)):
                        if self.feasible(st, cc):
                            s2, r2 = st.clone(), dict(regs)
                            s2.assume(cc)
                            r2[ins.res] = v
                            wl.append((s2, r2, blk, pred, i))
                    return
                regs[ins.res] = r
                continue
            self.simple(f, st, regs, ins)
        raise Unsupported("fell off block")

    def fnshort(self, name):
        d = self.dem.get(name, name)
        return re.sub(r"\(.*", "", d)[:120] if "operator()" not in d else d[:120]

    def try_ite(self, st, c, a, b, ty):
        t = self.mod.resolve(ty)
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if t.k == "int":
            if isinstance(a, PtrInt) or isinstance(b, PtrInt):
                return None
            if t.n == 1:
                return b_ite(c, a, b)
            return self.dom.ite_int(c, a, b, t.n)
        if t.k in ("double", "float"):
            if self.mode == "math" and (isinstance(a, float) or isinstance(b, float)):
                return None
            if self.opt.get("fork_fp_select"):
                return None
            return self.dom.ite_fp(c, a, b, 64 if t.k == "double" else 32)
        if t.k == "ptr":
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and a.off.same(b.off):
                return a
            return None
        return None

    def unwind(self, f, st, regs, blk, pred, exc, wl, results):
        ins_list = self.mod.block(f, blk)
        lp = next((x for x in ins_list if x.op == "landingpad"), None)
        if lp is None:
            raise Unsupported("landing pad")
        clauses, cleanup = lp.a
        tn = exc[0]
        for c in clauses:
            if c[0] == "null":
                sel = 1
            else:
                nm = c[1]
                if not self.isa(tn, nm):
                    continue
                sel = self.typeid(nm)
            self.enter(f, st, regs, blk, pred)
            regs[lp.res] = [exc[1], sel]
            st.cnt["exc"] = exc
            k = ins_list.index(lp) + 1
            wl.append((st, regs, blk, pred, k))
            return
        # only clean-ups here: destructors run during unwinding are not executed (assumption)
        results.append(Outcome("throw", st, None, exc))

    def typeid(self, nm):
        return self.typeids.setdefault(nm, 100 + len(self.typeids))

    def isa(self, t, base):
        seen = 0
        while t is not None and seen < 10:
            if t == base:
                return True
            seen += 1
            if t in STD_BASE:
                t = STD_BASE[t]
                continue
            g = self.mod.globals.get(t)
            t2 = None
            if g and g[1] and g[1][0] == "agg":
                for et, ev in g[1][1][2:]:
                    if ev[0] == "g" and ev[1].startswith("_ZTI"):
                        t2 = ev[1]
                        break
            t = t2
        return False

    def terminator(self, f, st, regs, blk, ins, wl, results):
        op = ins.op
        if op == "ret":
            v = None if ins.a[0] is None else self.value(st, regs, ins.a[0], ins.ty)
            results.append(Outcome("ret", st, None, v))
            self.stats["paths"] += 1
            return
        if op == "unreachable":
            self.oblige(st, False, "unreachable code is not reached (%s)" % self.where, "ub", self.where)
            return
        if op == "resume":
            results.append(Outcome("throw", st, None, st.cnt.get("exc", ("?", NULL))))
            return
        if op == "br":
            c, a, b = ins.a
            if c is None:
                wl.append((st, regs, a, blk, 0))
                return
            cv = self.value(st, regs, c, INT[1])
            if isinstance(cv, Undef):
                cv = self.dom.fresh_int("undef", 1, st)
            if isinstance(cv, bool):
                wl.append((st, regs, a if cv else b, blk, 0))
                return
            ta = self.feasible(st, cv)
            tb = self.feasible(st, b_not(cv)) if ta else True
            if ta and tb:
                s2, r2 = st.clone(), dict(regs)
                s2.assume(b_not(cv))
                st.assume(cv)
                wl.append((s2, r2, b, blk, 0))
                wl.append((st, regs, a, blk, 0))
            elif ta:
                st.assume(cv)
                wl.append((st, regs, a, blk, 0))
            else:
                st.assume(b_not(cv))
                wl.append((st, regs, b, blk, 0))
            return
        if op == "switch":
            v = self.value(st, regs, ins.a[0], ins.ty)
            if isinstance(v, int):
                for c, l in ins.a[2]:
                    if c & ((1 << ins.ty.n) - 1) == v:
                        wl.append((st, regs, l, blk, 0))
                        return
                wl.append((st, regs, ins.a[1], blk, 0))
                return
            rest = True
            for c, l in ins.a[2]:
                e = self.dom.icmp("eq", v, c & ((1 << ins.ty.n) - 1), ins.ty.n, st)
                if self.feasible(st, e):
                    s2 = st.clone()
                    s2.assume(e)
                    wl.append((s2, dict(regs), l, blk, 0))
                rest = b_and(rest, b_not(e))
            if self.feasible(st, rest):
                st.assume(rest)
                wl.append((st, regs, ins.a[1], blk, 0))
            return

    def do_call(self, f, st, regs, ins):
        callee, args, _, _ = ins.a
        vals = []
        for at, av, aa in args:
            vals.append(None if av is None else self.value(st, regs, av, at))
        if callee[0] == "g":
            name = callee[1]
            while name in self.mod.aliases:
                name = self.mod.aliases[name][1]
        else:
            fv = self.value(st, regs, callee, PTR)
            if not isinstance(fv, Fn):
                raise Unsupported("indirect call through %r (%s)" % (fv, self.where))
            name = fv.name
        if name.startswith("llvm."):
            r = self.intrinsic(st, name, vals, ins, args)
            if r is NotImplemented:
                raise Unsupported("intrinsic " + name)
            if ins.res is not None:
                regs[ins.res] = r
            if ins.op == "invoke":
                return [Outcome("ret", st, None, r)]
            return None
        return self.call(st, name, vals)

    def intrinsic(self, st, name, a, ins, args):
        dom = self.dom
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.invariant", "llvm.experimental.noalias",
                            "llvm.va_", "llvm.prefetch")):
            return None
        if name.startswith("llvm.assume"):
            return None
        if name.startswith("llvm.expect"):
            return a[0]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.copy_mem(st, a[0], a[1], self.int_off(a[2]))
            return None
        if name.startswith("llvm.memset"):
            self.set_mem(st, a[0], a[1], self.int_off(a[2]))
            return None
        if name.startswith("llvm.eh.typeid.for"):
            p = a[0]
            return self.typeid(p.o.gname if isinstance(p, Ptr) and p.o is not None and p.o.gname else
                               p.o.name[4:])
        if name.startswith("llvm.trap"):
            self.oblige(st, False, "no trap (%s)" % self.where, "ub", self.where)
            raise PathEnd()
        if name.startswith("llvm.launder") or name.startswith("llvm.strip"):
            return a[0]
        w = 32 if ".f32" in name else 64
        b = name.split(".")[1]
        if b in ("fabs",):
            return dom.fabs(a[0], w)
        if b in ("floor", "ceil", "trunc", "round"):
            return dom.fround(b, a[0], w, st)
        if b in ("minnum", "maxnum", "sqrt", "pow", "sin", "cos", "exp", "log", "log10", "copysign"):
            b = {"minnum": "fmin", "maxnum": "fmax"}.get(b, b)
            return self.lib.mathfn(st, b, a)
        if b in ("umax", "umin", "smax", "smin"):
            n = int(re.search(r"\.i(\d+)$", name).group(1))
            pr = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[b]
            c = dom.icmp(pr, a[0], a[1], n, st)
            return a[0] if c is True else a[1] if c is False else dom.ite_int(c, a[0], a[1], n)
        if b == "abs":
            n = int(re.search(r"\.i(\d+)$", name).group(1))
            c = dom.icmp("slt", a[0], 0, n, st)
            neg = dom.binop("sub", 0, a[0], n, st)
            return neg if c is True else a[0] if c is False else dom.ite_int(c, neg, a[0], n)
        if b == "is":
            # llvm.is.fpclass
            mask = a[1]
            x = a[0]
            if self.mode == "math":
                if isinstance(x, float):
                    nan, inf = math.isnan(x), math.isinf(x)
                    return bool((nan and mask & 3) or (inf and mask & 0x204) or (not nan and not inf and mask & 0x1f8))
                if mask & 0x1f8 == 0:
                    return False
                if mask & 0x1f8 == 0x1f8:
                    return True
                return NotImplemented
            X = dom.zf(x, w)
            r = False
            neg = z3.fpIsNegative(X)
            parts = [(3, z3.fpIsNaN(X)), (4, z3.And(z3.fpIsInf(X), neg)), (8, z3.And(z3.fpIsNormal(X), neg)),
                     (16, z3.And(z3.fpIsSubnormal(X), neg)), (32, z3.And(z3.fpIsZero(X), neg)),
                     (64, z3.And(z3.fpIsZero(X), z3.Not(neg))), (128, z3.And(z3.fpIsSubnormal(X), z3.Not(neg))),
                     (256, z3.And(z3.fpIsNormal(X), z3.Not(neg))), (512, z3.And(z3.fpIsInf(X), z3.Not(neg)))]
            for m, e in parts:
                if mask & m:
                    r = b_or(r, e)
            return z3.simplify(r) if not isinstance(r, bool) else r
        if b in ("uadd", "umul", "usub", "sadd", "ssub", "smul") and ".with.overflow." in name:
            n = int(re.search(r"\.i(\d+)$", name).group(1))
            if self.mode == "bits":
                A, B = dom.zi(a[0], n), dom.zi(a[1], n)
                o = {"uadd": lambda: z3.Not(z3.BVAddNoOverflow(A, B, False)),
                     "umul": lambda: z3.Not(z3.BVMulNoOverflow(A, B, False)),
                     "usub": lambda: z3.ULT(A, B)}.get(b)
                if o is None:
                    return NotImplemented
                return [dom.binop(b[1:], a[0], a[1], n, st), o()]
            A, B = dom.zi(a[0], n), dom.zi(a[1], n)
            t = {"uadd": lambda: A + B, "umul": lambda: A * B, "usub": lambda: A - B}.get(b)
            if t is None:
                return NotImplemented
            t = t()
            return [dom.wrap(t, n, st), z3.Or(t < 0, t >= (1 << n))]
        return NotImplemented

    # ---- bulk memory
    def copy_mem(self, st, d, s, n):
        if n.is_const() and n.c == 0:
            return
        if not n.is_const():
            return self.lib.copy_sym(st, d, s, n)
        so, soff = self.access(st, s, n.c, "memcpy")
        if so is None:
            raise PathEnd()
        do, doff = self.access(st, d, n.c, "memcpy")
        if do is None:
            raise PathEnd()
        sc = self.os(st, so)
        dc = self.os(st, do)
        if sc.per is not None:
            for k in range(0, n.c, 8):
                v = sc.per(self, st, soff.add(Off(k)), 8)
                self.raw_store(st, do, doff.add(Off(k)), v, "p" if isinstance(v, (Ptr, Fn)) else "i", 8)
            return
        if sc.arr is not None or not soff.is_const() or dc.arr is not None or not doff.is_const():
            if sc.arr is not None:
                es, tag = sc.arr[0], sc.arr[1]
            elif dc.arr is not None:
                es, tag = dc.arr[0], dc.arr[1]
            else:
                raise Unsupported("memcpy with symbolic offset")
            if n.c % es or n.c // es > 64:
                raise Unsupported("memcpy size in array")
            t = Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32)
            vals = [self.raw_load(st, so, soff.add(Off(k)), t, es) for k in range(0, n.c, es)]
            for k, v in enumerate(vals):
                self.raw_store(st, do, doff.add(Off(k * es)), v, tag, es)
            return
        a, b = soff.c, doff.c
        moved = [(k - a, x) for k, x in sc.cells.items() if k >= a and k + x[0] <= a + n.c]
        part = [k for k, x in sc.cells.items() if k < a + n.c and k + x[0] > a and not (k >= a and k + x[0] <= a + n.c)]
        if part:
            raise Unsupported("memcpy splits a cell")
        fills = [(max(fo, a) - a, min(fo + fn, a + n.c) - max(fo, a), fb) for fo, fn, fb in sc.fills
                 if fo < a + n.c and fo + fn > a]
        c2 = dc.copy()
        for k in [k for k, x in c2.cells.items() if k < b + n.c and k + x[0] > b]:
            if not (k >= b and k + c2.cells[k][0] <= b + n.c):
                raise Unsupported("memcpy overwrites part of a cell")
            del c2.cells[k]
        c2.fills = c2.fills + tuple((fo + b, fn, fb) for fo, fn, fb in fills)
        for k, x in moved:
            c2.cells[b + k] = x
            st.wlog.append((do.id, b + k, x[0], x[1]))
        st.mem[do.id] = c2
        if not moved:
            st.wlog.append((do.id, b, 1, "i"))

    def set_mem(self, st, d, byte, n):
        if n.is_const() and n.c == 0:
            return
        if not n.is_const():
            return self.lib.fill_sym(st, d, byte, n)
        o, off = self.access(st, d, n.c, "memset")
        if o is None:
            raise PathEnd()
        c = self.os(st, o)
        if c.arr is not None or not off.is_const():
            if c.arr is None:
                raise Unsupported("memset symbolic offset")
            es = c.arr[0]
            if not isinstance(byte, int) or n.c // es > 4096:
                return self.lib.fill_sym(st, d, byte, n)
            t = Ty("int", es * 8) if c.arr[1] == "i" else (F64 if es == 8 else F32)
            v = self.from_bytes_const(byte, t, es)
            for k in range(0, n.c, es):
                self.raw_store(st, o, off.add(Off(k)), v, c.arr[1], es)
            return
        c2 = c.copy()
        k = off.c
        for a in [a for a, x in c.cells.items() if a < k + n.c and a + x[0] > k]:
            if not (a >= k and a + c.cells[a][0] <= k + n.c):
                raise Unsupported("memset splits a cell")
            del c2.cells[a]
        if isinstance(byte, int):
            c2.fills = c2.fills + ((k, n.c, byte),)
        else:
            if n.c > 64:
                raise Unsupported("memset symbolic byte")
            for i in range(n.c):
                c2.cells[k + i] = (1, "i", byte)
        st.mem[o.id] = c2
        st.wlog.append((o.id, k, n.c, "fill"))

    # ---- simple instructions
    def simple(self, f, st, regs, ins):
        op, dom, a = ins.op, self.dom, ins.a
        V = lambda v, t: self.value(st, regs, v, t)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            if ins.ty.k == "vec":
                raise Unsupported("vector op")
            n = ins.ty.n
            x, y = self.ival(st, V(a[0], ins.ty), n), self.ival(st, V(a[1], ins.ty), n)
            if n == 1:
                regs[ins.res] = {"and": b_and, "or": b_or, "xor": b_xor, "add": b_xor, "sub": b_xor,
                                 "mul": b_and}[op](x, y)
                return
            if isinstance(x, PtrInt) or isinstance(y, PtrInt):
                regs[ins.res] = self.ptrarith(st, op, x, y)
                return
            if isinstance(x, z3.BoolRef) or isinstance(x, bool):
                x = self.b2i(x, n)
            if isinstance(y, z3.BoolRef) or isinstance(y, bool):
                y = self.b2i(y, n)
            if op in ("udiv", "sdiv", "urem", "srem"):
                self.oblige(st, dom.icmp("ne", y, 0, n, st), "integer divisor nonzero (%s)" % self.where, "ub", self.where)
            if op in ("sdiv", "ashr") and self.mode == "bits" and isinstance(y, int) and not isinstance(x, int) \
                    and "exact" in a[2]:
                d = y if op == "sdiv" else (1 << y)
                q = self.int_off(x).div(d)
                if q is not None:
                    r = q.term(dom)
                    regs[ins.res] = r
                    return
            regs[ins.res] = dom.binop(op, x, y, n, st, a[2])
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            w = 64 if ins.ty.k == "double" else 32
            if ins.ty.k not in ("double", "float"):
                raise Unsupported("fp type %r" % ins.ty)
            x, y = self.fval(st, V(a[0], ins.ty), w), self.fval(st, V(a[1], ins.ty), w)
            if op == "frem":
                regs[ins.res] = self.lib.mathfn(st, "fmod", [x, y])
            else:
                if op == "fdiv" and self.mode == "math" and self.spec_div(f, ins):
                    self.deferdiv = []
                    try:
                        regs[ins.res] = dom.fop(op, x, y, w, st)
                        if self.deferdiv:
                            regs["div0 " + ins.res] = self.deferdiv
                    finally:
                        self.deferdiv = None
                    return
                regs[ins.res] = dom.fop(op, x, y, w, st)
            return
        if op == "fneg":
            w = 64 if ins.ty.k == "double" else 32
            regs[ins.res] = dom.fneg(self.fval(st, V(a[0], ins.ty), w), w)
            return
        if op == "icmp":
            pr = a[0]
            x, y = V(a[1], ins.ty), V(a[2], ins.ty)
            regs[ins.res] = self.icmp(st, pr, x, y, ins.ty)
            return
        if op == "fcmp":
            w = 64 if ins.ty.k == "double" else 32
            if ins.ty.k not in ("double", "float"):
                raise Unsupported("fp type %r" % ins.ty)
            x, y = self.fval(st, V(a[1], ins.ty), w), self.fval(st, V(a[2], ins.ty), w)
            if a[0] == "true":
                regs[ins.res] = True
            elif a[0] == "false":
                regs[ins.res] = False
            else:
                if self.cmp_log is not None:
                    self.cmp_log.append(("f", x, y, w))
                regs[ins.res] = dom.fcmp(a[0], x, y, w, st)
            return
        if op == "load":
            p = V(a[0], PTR)
            regs[ins.res] = self.load(st, p, ins.ty)
            return
        if op == "store":
            self.store(st, V(a[1], PTR), V(a[0], ins.ty), ins.ty)
            return
        if op == "getelementptr":
            base = V(a[0][1], PTR)
            regs[ins.res] = self.gep(st, ins.ty, base, [(t, V(v, t)) for t, v in a[1:]])
            return
        if op == "alloca":
            sz = self.mod.size(ins.ty)
            if a[0] is not None:
                k = V(a[0][1], a[0][0])
                if not isinstance(k, int):
                    raise Unsupported("variable alloca")
                sz *= k
            o = self.newobj(st, ins.res, Off(sz), stack=True)
            regs[ins.res] = Ptr(o)
            return
        if op in ("trunc", "zext", "sext"):
            t, v = a
            x = V(v, t)
            if t.k == "vec":
                raise Unsupported("vector")
            regs[ins.res] = self.intcast(st, op, x, t.n, ins.ty.n)
            return
        if op in ("fptrunc", "fpext"):
            t, v = a
            w, w2 = (64 if t.k == "double" else 32), (64 if ins.ty.k == "double" else 32)
            if ins.ty.k == "x86_fp80" or t.k == "x86_fp80":
                raise Unsupported("long double")
            regs[ins.res] = dom.fpconv(self.fval(st, V(v, t), w), w, w2, st)
            return
        if op in ("fptoui", "fptosi"):
            t, v = a
            w = 64 if t.k == "double" else 32
            x = self.fval(st, V(v, t), w)
            n = ins.ty.n
            sg = op == "fptosi"
            if self.opt.get("fptoint", "oblige") == "oblige":
                self.oblige(st, dom.fp_in_int_range(x, w, n, sg),
                            "float-to-integer conversion is defined (%s)" % self.where, "conv", self.where)
            elif self.opt.get("fptoint") == "assume":
                st.assume(dom.fp_in_int_range(x, w, n, sg))
            regs[ins.res] = dom.fptoi(x, w, n, sg, st)
            return
        if op in ("uitofp", "sitofp"):
            t, v = a
            x = self.ival(st, V(v, t), t.n)
            w = 64 if ins.ty.k == "double" else 32
            if ins.ty.k == "x86_fp80":
                raise Unsupported("long double")
            if isinstance(x, bool):
                x = int(x)
            regs[ins.res] = dom.itofp(x, t.n, w, op == "sitofp", st)
            return
        if op == "ptrtoint":
            x = V(a[1], PTR)
            if isinstance(x, Ptr) and x.o is None and x.off.is_const():
                regs[ins.res] = x.off.c & ((1 << 64) - 1)
            else:
                regs[ins.res] = PtrInt(x)
            return
        if op == "inttoptr":
            x = V(a[1], a[0])
            if isinstance(x, PtrInt):
                regs[ins.res] = x.p
            elif isinstance(x, int):
                regs[ins.res] = Ptr(None, Off(x))
            else:
                raise Unsupported("inttoptr")
            return
        if op == "bitcast":
            t, v = a
            x = V(v, t)
            if t.k == "double" and ins.ty.k == "int":
                x = dom.fp2bits(x, 64)
            elif t.k == "int" and ins.ty.k == "double":
                x = dom.bits2fp(x, 64)
            elif t.k != ins.ty.k:
                raise Unsupported("bitcast")
            regs[ins.res] = x
            return
        if op == "extractvalue":
            v = V(a[0], ins.ty)
            for k in a[1]:
                v = v[k] if not isinstance(v, Undef) else UNDEF
            regs[ins.res] = v
            return
        if op == "insertvalue":
            import copy
            v = V(a[0], ins.ty)
            e = V(a[2], a[1])

            def ins_(v, idx):
                v = list(v)
                v[idx[0]] = e if len(idx) == 1 else ins_(v[idx[0]], idx[1:])
                return v
            regs[ins.res] = ins_(v, a[3])
            return
        if op == "freeze":
            v = V(a[0], ins.ty)
            if isinstance(v, Undef):
                v = self.fresh(st, "undef", self.mod.resolve(ins.ty))
            regs[ins.res] = v
            return
        if op == "atomicrmw":
            k, pv, vv = a
            p = V(pv, PTR)
            old = self.load(st, p, ins.ty)
            v = V(vv, ins.ty)
            if k == "xchg":
                nv = v
            elif k in ("add", "sub"):
                nv = dom.binop(k, old, v, ins.ty.n, st)
            else:
                raise Unsupported("atomicrmw " + k)
            self.store(st, p, nv, ins.ty)
            regs[ins.res] = old
            return
        raise Unsupported("instruction %s (%s) in %s" % (op, ins.a if op == "unsupported" else ins.raw[:80], self.where))

    def fval(self, st, x, w):
        if isinstance(x, Undef):
            return self.dom.fresh_fp("undef", w, st)
        return x

    def intcast(self, st, op, x, n, m):
        dom = self.dom
        if isinstance(x, Undef):
            return x
        if isinstance(x, PtrInt):
            if n == m:
                return x
            raise Unsupported("cast of pointer integer")
        if n == 1:
            if isinstance(x, bool):
                return int(x) if op == "zext" else (((1 << m) - 1) if x else 0)
            if op == "zext":
                return dom.ite_int(x, 1, 0, m)
            return dom.ite_int(x, (1 << m) - 1, 0, m)
        if op == "trunc":
            if m == 1:
                if isinstance(x, int):
                    return bool(x & 1)
                b = self.as_bool01(x)
                if b is not None:
                    return b
                if self.mode == "bits":
                    return z3.simplify(z3.Extract(0, 0, x) == z3.BitVecVal(1, 1))
                return x % 2 == 1
            return dom.trunc(x, n, m, st)
        return dom.zext(x, n, m) if op == "zext" else dom.sext(x, n, m)

    def as_bool01(self, x):
        """If(c,1,0) -> c"""
        if isinstance(x, z3.ExprRef) and z3.is_app_of(x, z3.Z3_OP_ITE):
            a, b = x.arg(1), x.arg(2)
            va = a.as_long() if (z3.is_int_value(a) or z3.is_bv_value(a)) else None
            vb = b.as_long() if (z3.is_int_value(b) or z3.is_bv_value(b)) else None
            if va == 1 and vb == 0:
                return x.arg(0)
            if va == 0 and vb == 1:
                return b_not(x.arg(0))
        return None

    def icmp(self, st, pr, x, y, ty):
        if ty.k == "ptr" or isinstance(x, (Ptr, Fn, PtrInt)) or isinstance(y, (Ptr, Fn, PtrInt)):
            return self.ptrcmp(st, pr, x, y)
        n = ty.n
        x, y = self.ival(st, x, n), self.ival(st, y, n)
        if n == 1:
            if pr == "eq":
                return b_not(b_xor(x, y))
            if pr == "ne":
                return b_xor(x, y)
            if isinstance(x, bool) and isinstance(y, bool):
                return D.cmp_fold(pr, int(x), int(y), 1)
            x, y = self.b2i(x, 8), self.b2i(y, 8)
            n = 8
        if isinstance(x, z3.BoolRef) or isinstance(x, bool):
            x = self.b2i(x, n)
        if isinstance(y, z3.BoolRef) or isinstance(y, bool):
            y = self.b2i(y, n)
        if isinstance(y, int) and pr in ("eq", "ne") and y in (0, 1):
            b = self.as_bool01(x)
            if b is not None:
                return b if (y == 1) == (pr == "eq") else b_not(b)
        if self.cmp_log is not None:
            self.cmp_log.append((n, x, y))
        return self.dom.icmp(pr, x, y, n, st)

    def ptrarith(self, st, op, x, y):
        if op == "sub" and isinstance(x, PtrInt) and isinstance(y, PtrInt):
            if isinstance(x.p, Ptr) and isinstance(y.p, Ptr) and x.p.o is y.p.o:
                o = x.p.off.add(y.p.off, -1)
                if o.is_const():
                    return o.c & ((1 << 64) - 1)
                t = o.term(self.dom)
                if self.mode == "math":
                    return self.dom.wrap(t, 64, st)
                return t
            raise Unsupported("difference of pointers to different objects (%s)" % self.where)
        if op in ("add", "sub") and isinstance(x, PtrInt) and not isinstance(y, PtrInt):
            return PtrInt(Ptr(x.p.o, x.p.off.add(self.int_off(y), 1 if op == "add" else -1)))
        if op == "add" and isinstance(y, PtrInt):
            return PtrInt(Ptr(y.p.o, y.p.off.add(self.int_off(x))))
        if op == "and" and isinstance(y, int) and isinstance(x, PtrInt) and isinstance(x.p, Fn):
            return 0
        raise Unsupported("pointer arithmetic " + op)

    def ptrcmp(self, st, pr, x, y):
        def norm(v):
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, int):
                return Ptr(None, Off(v))
            return v
        x, y = norm(x), norm(y)
        if isinstance(x, Undef) or isinstance(y, Undef):
            raise Unsupported("comparison of undefined pointer (%s)" % self.where)
        if isinstance(x, Fn) or isinstance(y, Fn):
            e = isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name
            return e if pr == "eq" else (not e)
        if x.o is not y.o:
            if pr in ("eq", "ne"):
                # null + constant offset vs object, or two distinct objects
                return pr == "ne"
            raise Unsupported("ordering of pointers to different objects (%s)" % self.where)
        if x.off.same(y.off):
            return pr in ("eq", "ule", "uge", "sle", "sge")
        d = x.off.add(y.off, -1)
        if d.is_const():
            return {"eq": False, "ne": True, "ult": d.c < 0, "ule": d.c <= 0, "ugt": d.c > 0, "uge": d.c >= 0}[pr]
        import math as _m
        g = 0
        for o in (x.off, y.off):
            g = _m.gcd(g, o.c)
            for _, c in o.t.values():
                g = _m.gcd(g, c)
        a, b = x.off.div(g), y.off.div(g)
        A, B = a.term(self.dom), b.term(self.dom)
        if self.cmp_log is not None:
            self.cmp_log.append((64, A, B))
        if self.mode == "math":
            A, B = self.dom.zi(A, 64), self.dom.zi(B, 64)
            return {"eq": A == B, "ne": A != B, "ult": A < B, "ule": A <= B, "ugt": A > B, "uge": A >= B,
                    "slt": A < B, "sgt": A > B}[pr]
        return self.dom.icmp(pr, A, B, 64, st)

    # ------------------------------------------------------------------ loops
    def loop(self, f, st, regs, h, pred):
        body = self.mod.loops(f)[h]
        r = self.try_unroll(f, st, regs, h, pred, body)
        if r is not None:
            self.stats["unrolled"] += 1
            return r
        import loops
        return loops.summarise(self, f, st, regs, h, pred, body)

    def try_unroll(self, f, st, regs, h, pred, body):
        mark = len(self.obligs)
        save_on = self.oblig_on
        done = []
        cur = [(st.clone(), dict(regs), pred)]
        lim = self.opt.get("unroll", 80)
        maxs = self.opt.get("unroll_states", 24)
        for it in range(lim):
            nxt = []
            exits = 0
            for s, r, p in cur:
                outs = self.run(f, s, r, h, p, (h, body))
                be = [o for o in outs if o.kind == "back"]
                ex = [o for o in outs if o.kind == "exit"]
                if be and ex and not self.opt.get("unroll_symbolic"):
                    del self.obligs[mark:]
                    return None
                nxt += [(o.st, o.regs, o.pred) for o in be]
                done += [o for o in outs if o.kind != "back"]
            if not nxt:
                return done
            if len(nxt) > maxs:
                break
            cur = nxt
        del self.obligs[mark:]
        return None


class PathEnd(Exception):
    """the current path ends (after a failed safety obligation, or an assumption that is false)"""
