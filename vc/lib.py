"""Harness intrinsics and library contracts (the trusted base: each one is listed in the evidence)."""
import re, math
from fractions import Fraction
import z3
from irparse import *
import dom as D
from dom import b_not, b_and, b_or, b_ite, zb, is_c
import engine as E

OPAQUE = re.compile(
    r"^(?:[\w:<>,\s&*]*\s)?(?:fmt::v8::|std::__cxx11::basic_string<|std::basic_string<|std::allocator<char>::|std::char_traits|"
    r"MaRC::details::(?:debug|info|warn|error|critical)\(|"
    r"std::basic_ostream|std::ostream|std::operator<<|std::locale|"
    r"std::(?:logic_error|invalid_argument|out_of_range|runtime_error|domain_error|range_error|exception|"
    r"bad_function_call|length_error)::|"
    r"MaRC::(?:debug|info|warn|error|critical)<)")
STRFN = re.compile(r"std::operator\+<char|std::__cxx11::to_string|std::to_string")

MATH1 = ("sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "log10", "log2", "cbrt", "floor", "ceil",
         "round", "trunc", "fabs", "lround", "log1p", "expm1", "sinh", "cosh", "tanh")
MATH2 = ("atan2", "pow", "hypot", "fmod", "fmin", "fmax", "copysign", "remainder", "nextafter")


class Lib:
    def __init__(self, eng):
        self.eng = eng
        self.used = set()
        self.cache = {}

    # ------------------------------------------------------------------ dispatch
    def model(self, name, d):
        if name in self.cache:
            return self.cache[name]
        m = self._model(name, d)
        self.cache[name] = m
        return m

    def _model(self, name, d):
        g = getattr(self, "x_" + name, None)
        if g is not None:
            return lambda st, a, f: g(st, a)
        if name in MATH1 or name in MATH2:
            return lambda st, a, f: self.ret(st, self.mathfn(st, name, a))
        if name.endswith("f") and (name[:-1] in MATH1 or name[:-1] in MATH2):
            return None
        if name.startswith("_Znw") or name.startswith("_Zna"):
            return lambda st, a, f: self.new(st, a)
        if name.startswith("_Zdl") or name.startswith("_Zda"):
            return lambda st, a, f: self.ret(st, None)
        for rx, fn in CONTRACTS:
            if rx.search(d):
                self.used.add(rx.pattern)
                return lambda st, a, f, fn=fn: fn(self, st, a, f)
        user = self.eng.opt.get("contracts", {})
        for rx, fn in user.items():
            if re.search(rx, d):
                self.used.add(rx)
                return lambda st, a, f, fn=fn: fn(self, st, a, f)
        if OPAQUE.search(d) or STRFN.search(d):
            self.used.add("opaque (no effect on the modelled state): " + re.sub(r"[<(].*", "", d))
            return self.opaque
        return None

    def ret(self, st, v):
        return [E.Outcome("ret", st, None, v)]

    def opaque(self, st, a, f):
        v = None
        if f is not None and f.ret.k != "void":
            t = self.eng.mod.resolve(f.ret)
            if t.k in ("struct", "arr"):
                v = self.eng.undef(t)
            elif t.k == "ptr":
                v = a[0] if a and isinstance(a[0], E.Ptr) else E.UNDEF
            else:
                v = self.eng.fresh(st, "opaque", t)
        return self.ret(st, v)

    # ------------------------------------------------------------------ harness intrinsics
    def cname(self, st, p):
        eng = self.eng
        s = b""
        o, off = p.o, p.off.c
        c = eng.os(st, o)
        while True:
            x = c.cells.get(off)
            if x is None or x[2] == 0:
                break
            s += bytes([x[2]])
            off += 1
        return s.decode()

    def nd(self, st, a, v):
        nm = self.cname(st, a[0])
        st.nd.append((nm, v))
        return self.ret(st, v)

    def x_nd_f64(self, st, a):
        return self.nd(st, a, self.eng.dom.fresh_fp("nd_" + self.cname(st, a[0]), 64, st))

    def x_nd_f64_in(self, st, a):
        e = self.eng
        v = e.dom.fresh_fp("nd_" + self.cname(st, a[0]), 64, st)
        st.assume(e.dom.fcmp("oge", v, a[1], 64))
        st.assume(e.dom.fcmp("ole", v, a[2], 64))
        return self.nd(st, a, v)

    def x_nd_f32(self, st, a):
        return self.nd(st, a, self.eng.dom.fresh_fp("nd_" + self.cname(st, a[0]), 32, st))

    def _ndi(self, st, a, n):
        return self.nd(st, a, self.eng.dom.fresh_int("nd_" + self.cname(st, a[0]), n, st))

    def x_nd_u64(self, st, a):
        return self._ndi(st, a, 64)

    def x_nd_u64_in(self, st, a):
        e = self.eng
        v = e.dom.fresh_int("nd_" + self.cname(st, a[0]), 64, st)
        st.assume(e.dom.icmp("uge", v, a[1], 64))
        st.assume(e.dom.icmp("ule", v, a[2], 64))
        return self.nd(st, a, v)

    def x_nd_i64(self, st, a):
        return self._ndi(st, a, 64)

    def x_nd_u32(self, st, a):
        return self._ndi(st, a, 32)

    def x_nd_i32(self, st, a):
        return self._ndi(st, a, 32)

    def x_nd_u16(self, st, a):
        return self._ndi(st, a, 16)

    def x_nd_i16(self, st, a):
        return self._ndi(st, a, 16)

    def x_nd_u8(self, st, a):
        return self._ndi(st, a, 8)

    def x_nd_bool(self, st, a):
        return self.nd(st, a, self.eng.dom.fresh_int("nd_" + self.cname(st, a[0]), 1, st))

    def x_v_symbolic(self, st, a):
        return self.ret(st, True)

    def x_v_same(self, st, a):
        """the same number, written as the loop variable of the code it is proved equal to, if there is one"""
        e, x = self.eng, a[0]
        if e.mode == "math" and not isinstance(x, int):
            for v in st.cnt.get("ivars", ()):
                if isinstance(v, int):
                    continue
                if v.eq(x):
                    break
                if e.entails(st, v == x, 700):
                    return self.ret(st, v)
        return self.ret(st, x)

    def x_v_assume(self, st, a):
        c = a[0]
        if c is False:
            return []
        if not isinstance(c, bool):
            if not (self.eng.mode == "math" and self.eng.hard(c)) and not self.eng.feasible(st, c):
                return []
            st.assume(c)
        return self.ret(st, None)

    def x_v_assert(self, st, a):
        nm = self.cname(st, a[1])
        c = a[0]
        self.eng.oblige(st, c, nm, "ensures", self.eng.where)
        if c is False:
            return []
        return self.ret(st, None)

    def x_v_eq(self, st, a):
        """equality of two doubles up to rounding: exact in the real-number reading"""
        nm = self.cname(st, a[3])
        e = self.eng
        if e.mode == "math":
            g = e.dom.feq_term(a[0], a[1], 64)
        else:
            g = e.dom.feq_term(a[0], a[1], 64)
            # IEEE reading: same value (or both NaN), signs of zero ignored
            A, B = e.dom.zf(a[0], 64), e.dom.zf(a[1], 64)
            g = z3.Or(A == B, z3.fpEQ(A, B))
        e.oblige(st, g, nm, "ensures", e.where)
        if g is False:
            return []
        return self.ret(st, None)

    def x_v_le(self, st, a):
        """a <= b up to rounding"""
        nm = self.cname(st, a[3])
        e = self.eng
        g = e.dom.fcmp("ole", a[0], a[1], 64)
        e.oblige(st, g, nm, "ensures", e.where)
        if g is False:
            return []
        return self.ret(st, None)

    def x_v_cover(self, st, a):
        if self.eng.oblig_on:
            self.eng.covers.add((self.cname(st, a[0]), tuple(st.pc)))
        return self.ret(st, None)

    def x_v_uf(self, st, a):
        """value of an otherwise unspecified function (the callee's contract), same arguments same value"""
        e = self.eng
        if e.mode == "math":
            f = z3.Function("uf_" + self.cname(st, a[0]), z3.RealSort(), z3.RealSort(), z3.RealSort())
        else:
            D = z3.Float64()
            f = z3.Function("uf_" + self.cname(st, a[0]), D, D, D)
        return self.ret(st, f(e.dom.zf(a[2], 64), e.dom.zf(a[3], 64)))

    def x_v_lemma(self, st, a):
        """harness lemma: proved here (obligation), then available"""
        return self.x_v_assert(st, a)

    def x_v_watch(self, st, a):
        """watch the element (of width a[1]) at pointer a[0] in loop invariants"""
        w = {1: INT[8], 2: INT[16], 4: INT[32], 8: INT[64], 108: F64, 104: F32}[a[1]]
        ws = st.cnt.get("watch", ())
        st.cnt["watch"] = ws + ((str(len(ws)), a[0], w),)
        return self.ret(st, None)

    def x_v_watch_index(self, st, a):
        """watch element a[0] of every array that a loop modifies"""
        st.cnt["watchix"] = st.cnt.get("watchix", ()) + (a[0],)
        return self.ret(st, None)

    def x_v_inv(self, st, a):
        """void v_inv(bool (*)(), name): candidate loop invariant, a predicate over (ghost) memory"""
        if not isinstance(a[0], E.Fn):
            raise Unsupported("v_inv needs a function")
        st.cnt["invs"] = st.cnt.get("invs", ()) + ((self.cname(st, a[1]), a[0].name),)
        return self.ret(st, None)

    def x_v_inv_at(self, st, a):
        """void v_inv_at(uint64_t w, bool (*)(), name): the predicate holds once (or until) a loop counter passes w"""
        if not isinstance(a[1], E.Fn):
            raise Unsupported("v_inv_at needs a function")
        st.cnt["invs"] = st.cnt.get("invs", ()) + ((self.cname(st, a[2]), a[1].name, a[0]),)
        return self.ret(st, None)

    def _alloc(self, st, name, n, es):
        e = self.eng
        off = e.int_off(n).scale(es)
        o = e.newobj(st, name, off)
        return o

    def x_v_alloc(self, st, a):
        """void* v_alloc(name, n, elem_size): n elements of arbitrary content"""
        o = self._alloc(st, self.cname(st, a[0]), a[1], a[2])
        return self.ret(st, E.Ptr(o))

    def x_v_replicate(self, st, a):
        """void* v_replicate(name, proto, stride, n): n objects, each a copy of *proto"""
        e = self.eng
        proto, stride, n = a[1], a[2], a[3]
        o = self._alloc(st, self.cname(st, a[0]), n, stride)
        src = e.os(st, proto.o)
        base = proto.off.c

        def per(eng, st, off, sz):
            c, idx = split(off, stride)
            x = src.cells.get(base + c)
            if x is None or x[0] != sz:
                raise Unsupported("field of abstract object")
            return x[2]
        st.mem[o.id] = E.OS(per=per)
        return self.ret(st, E.Ptr(o))

    def x_v_ptrs(self, st, a):
        """void* v_ptrs(name, elem_stride, ptr_off, objs, obj_stride, n):
           array of n elements whose pointer at ptr_off refers to objs + i*obj_stride (rest zero)"""
        e = self.eng
        es, po, objs, ost, n = a[1], a[2], a[3], a[4], a[5]
        o = self._alloc(st, self.cname(st, a[0]), n, es)

        def per(eng, st, off, sz):
            c, idx = split(off, es)
            if c == po and sz == 8:
                return E.Ptr(objs.o, objs.off.add(idx.scale(ost)))
            return E.NULL
        st.mem[o.id] = E.OS(per=per)
        return self.ret(st, E.Ptr(o))

    # ------------------------------------------------------------------ C++ runtime
    def new(self, st, a):
        e = self.eng
        o = e.newobj(st, "new", e.int_off(a[0]))
        return self.ret(st, E.Ptr(o))

    def x_malloc(self, st, a):
        return self.new(st, a)

    def x_free(self, st, a):
        return self.ret(st, None)

    def x___cxa_allocate_exception(self, st, a):
        return self.new(st, a)

    def x___cxa_free_exception(self, st, a):
        return self.ret(st, None)

    def x___cxa_throw(self, st, a):
        tn = a[1].o.gname or a[1].o.name[4:]
        return [E.Outcome("throw", st, None, (tn, a[0]))]

    def x___cxa_rethrow(self, st, a):
        return [E.Outcome("throw", st, None, st.cnt.get("caught", ("?", E.NULL)))]

    def x___cxa_begin_catch(self, st, a):
        st.cnt["caught"] = st.cnt.get("exc", ("?", E.NULL))
        return self.ret(st, a[0])

    def x___cxa_end_catch(self, st, a):
        return self.ret(st, None)

    def x___cxa_atexit(self, st, a):
        return self.ret(st, 0)

    def x___cxa_guard_acquire(self, st, a):
        return self.ret(st, 1)

    def x___cxa_guard_release(self, st, a):
        return self.ret(st, None)

    def x___cxa_pure_virtual(self, st, a):
        self.eng.oblige(st, False, "no pure virtual call", "ub")
        return []

    def x___assert_fail(self, st, a):
        self.eng.oblige(st, False, "assert(%s) of the code holds" % self.cname(st, a[0]), "assert", self.eng.where)
        return []

    def x_abort(self, st, a):
        self.eng.oblige(st, False, "no abort (%s)" % self.eng.where, "assert", self.eng.where)
        return []

    def x__ZSt9terminatev(self, st, a):
        return self.x_abort(st, a)

    def x___clang_call_terminate(self, st, a):
        return self.x_abort(st, a)

    def x_memcmp(self, st, a):
        return self.ret(st, self.eng.dom.fresh_int("memcmp", 32, st))

    def x_strlen(self, st, a):
        return self.ret(st, len(self.cname(st, a[0])))

    def x_memcpy(self, st, a):
        self.eng.copy_mem(st, a[0], a[1], self.eng.int_off(a[2]))
        return self.ret(st, a[0])

    def x_memmove(self, st, a):
        return self.x_memcpy(st, a)

    def throw_std(self, st, ti):
        e = self.eng
        o = e.newobj(st, "exc", E.Off(16))
        return [E.Outcome("throw", st, None, (ti, E.Ptr(o)))]

    # ------------------------------------------------------------------ symbolic bulk memory
    def copy_sym(self, st, d, s, n):
        e = self.eng
        so, do = s.o, d.o
        if so is None or do is None:
            raise Unsupported("symbolic copy from null")
        sc = e.os(st, so)
        if sc.per is not None:
            if d.off.is_const() and d.off.c == 0 and s.off.is_const() and s.off.c == 0:
                st.mem[do.id] = E.OS(per=sc.per)
                return
            raise Unsupported("symbolic copy of abstract objects")
        if sc.arr is None:
            raise Unsupported("symbolic copy of cells")
        es, tag, a = sc.arr
        self.need_range(st, s, n)
        self.need_range(st, d, n)
        dc = e.os(st, do)
        if dc.arr is None:
            if dc.cells:
                raise Unsupported("symbolic copy over cells")
            e.to_array(st, do, es, tag, Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32))
        es2, tag2, b = e.os(st, do).arr
        if es2 != es:
            raise Unsupported("symbolic copy width")
        d0, s0, k = d.off.div(es), s.off.div(es), n.div(es)
        if None in (d0, s0, k):
            raise Unsupported("symbolic copy alignment")
        z = lambda o: e.dom.zi(o.term(e.dom), 64)
        x = z3.Const(e.dom.name("ix"), a.domain())
        lt = z3.ULT if e.mode == "bits" else (lambda p, q: p < q)
        le = z3.ULE if e.mode == "bits" else (lambda p, q: p <= q)
        na = z3.Lambda([x], z3.If(z3.And(le(z(d0), x), lt(x - z(d0), z(k))), z3.Select(a, x - z(d0) + z(s0)),
                                  z3.Select(b, x)))
        st.mem[do.id] = E.OS({}, (), (es, tag, na), None, False)
        st.wlog.append((do.id, "arr", es, tag))

    def need_range(self, st, p, n):
        e = self.eng
        if p.o.size is None:
            return
        end = p.off.add(n)
        g = 8
        for gg in (8, 4, 2, 1):
            if all(o.div(gg) is not None for o in (p.off, end, p.o.size)):
                g = gg
                break
        z = lambda o: e.dom.zi(o.div(g).term(e.dom), 64)
        if e.mode == "math":
            c = z3.And(z(p.off) >= 0, z(end) <= z(p.o.size), z(end) >= z(p.off))
        else:
            c = z3.And(z3.ULE(z(p.off), z(end)), z3.ULE(z(end), z(p.o.size)))
        e.oblige(st, c, "bulk memory access in bounds (%s)" % e.where, "bounds", e.where)

    def fill_elems(self, st, p, n, v, es, tag):
        """p[0..n) = v  (n an Off counting elements)"""
        e = self.eng
        if n.is_const() and n.c == 0:
            return
        self.need_range(st, p, n.scale(es))
        c = e.os(st, p.o)
        t = Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32)
        if n.is_const() and p.off.is_const() and n.c <= 64 and c.arr is None:
            for k in range(n.c):
                e.raw_store(st, p.o, p.off.add(E.Off(k * es)), v, tag, es)
            return
        whole = p.off.is_const() and p.off.c == 0 and p.o.size is not None and n.scale(es).same(p.o.size)
        ix = z3.BitVecSort(64) if e.mode == "bits" else z3.IntSort()
        if e.store_log is not None and isinstance(v, int):
            e.store_log.add(v)
        if whole:
            na = z3.K(ix, e.aval(v, tag, es))
        else:
            if c.arr is None:
                e.to_array(st, p.o, es, tag, t)
                c = e.os(st, p.o)
            es2, tag2, b = c.arr
            if es2 != es:
                raise Unsupported("fill width")
            o0 = p.off.div(es)
            if o0 is None:
                raise Unsupported("fill alignment")
            z = lambda o: e.dom.zi(o.term(e.dom), 64)
            x = z3.Const(e.dom.name("ix"), ix)
            if e.mode == "bits":
                inr = z3.And(z3.ULE(z(o0), x), z3.ULT(x - z(o0), z(n)))
            else:
                inr = z3.And(z(o0) <= x, x < z(o0) + z(n))
            na = z3.Lambda([x], z3.If(inr, e.aval(v, tag, es), z3.Select(b, x)))
        st.mem[p.o.id] = E.OS({}, (), (es, tag, na), None, False)
        st.wlog.append((p.o.id, "arr", es, tag))

    def fill_sym(self, st, p, byte, n):
        e = self.eng
        c = e.os(st, p.o)
        if c.arr is not None and c.arr[0] != 1:
            es, tag = c.arr[0], c.arr[1]
            t = Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32)
            self.fill_elems(st, p, n.div(es), e.from_bytes_const(byte, t, es), es, tag)
            return
        self.fill_elems(st, p, n, byte, 1, "i")

    # ------------------------------------------------------------------ mathematical functions
    def mathfn(self, st, name, a):
        e = self.eng
        dom = e.dom
        if name in ("floor", "ceil", "round", "trunc"):
            return dom.fround(name, a[0], 64, st)
        if name == "fabs":
            return dom.fabs(a[0], 64)
        if e.mode == "bits":
            return self.math_bits(st, name, a)
        import realmath
        return realmath.apply(e, st, name, a)

    def math_bits(self, st, name, a):
        e = self.eng
        dom = e.dom
        if name in ("fmin", "fmax"):
            x, y = a
            c = dom.fcmp("olt" if name == "fmin" else "ogt", x, y, 64)
            return b_sel(dom, dom.isnan(x, 64), y, b_sel(dom, b_or(dom.isnan(y, 64), c), x, y))
        if all(isinstance(x, float) for x in a):
            try:
                return float(getattr(math, name)(*a))
            except (ValueError, OverflowError, AttributeError):
                pass
        if name == "sqrt":
            return z3.fpSqrt(D.RNE, dom.zf(a[0], 64))
        if name == "copysign":
            A, B = dom.zf(a[0], 64), dom.zf(a[1], 64)
            return z3.If(z3.fpIsNegative(B), z3.fpNeg(z3.fpAbs(A)), z3.fpAbs(A))
        args = [dom.zf(x, 64) for x in a]
        r = e.uf("m_" + name, *([D.F64S] * (len(a) + 1)))(*args)
        # trusted facts about libm: NaN in, NaN out; range of the bounded functions
        for x in args:
            if name not in ("pow", "hypot"):
                st.assume(z3.Implies(z3.fpIsNaN(x), z3.fpIsNaN(r)))
        one = z3.FPVal(1.0, D.F64S)
        if name in ("sin", "cos"):
            st.assume(z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(args[0]), z3.fpIsInf(args[0]))),
                                 z3.And(z3.fpLEQ(r, one), z3.fpGEQ(r, z3.fpNeg(one)))))
        if name == "fmod":
            x, y = args
            fin = z3.And(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))), z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpIsZero(y)))
            st.assume(z3.Implies(fin, z3.And(z3.fpLT(z3.fpAbs(r), z3.fpAbs(y)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(x)),
                                             z3.Or(z3.fpIsZero(r), z3.fpIsNegative(r) == z3.fpIsNegative(x)))))
            st.assume(z3.Implies(z3.And(fin, z3.fpLT(z3.fpAbs(x), z3.fpAbs(y))), z3.fpEQ(r, x)))
        return r


def b_sel(dom, c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return dom.ite_fp(c, a, b, 64)


def split(off, stride):
    """off = stride*idx + c"""
    c = off.c % stride
    rest = E.Off(off.c - c, off.t)
    i = rest.div(stride)
    if i is None:
        raise Unsupported("offset into abstract array")
    return c, i


# ---------------------------------------------------------------------- library contracts
def _ret(v=None):
    return lambda L, st, a, f: L.ret(st, v)


def _throw(ti):
    return lambda L, st, a, f: L.throw_std(st, ti)


def _elem_of(d):
    """element type of the first pointer parameter of a demangled signature"""
    m = re.search(r"\((\w[\w ]*?)\s*\*", d)
    if not m:
        raise Unsupported("fill of " + d)
    t = m.group(1).strip()
    tab = {"unsigned char": (1, "i"), "char": (1, "i"), "signed char": (1, "i"), "bool": (1, "i"), "short": (2, "i"),
           "unsigned short": (2, "i"), "int": (4, "i"), "unsigned int": (4, "i"), "long": (8, "i"),
           "unsigned long": (8, "i"), "long long": (8, "i"), "unsigned long long": (8, "i"), "double": (8, "f"), "float": (4, "f")}
    if t not in tab:
        raise Unsupported("fill of " + t)
    return tab[t]


def _fill_range(L, st, a, f):
    e = L.eng
    es, tag = _elem_of(e.dem[f.name])
    t = Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32)
    v = e.load(st, a[2], t)
    p, q = a[0], a[1]
    if p.o is not q.o:
        raise Unsupported("fill range over two objects")
    n = q.off.add(p.off, -1).div(es)
    L.fill_elems(st, p, n, v, es, tag)
    return L.ret(st, None)


def _fill_n(L, st, a, f):
    e = L.eng
    es, tag = _elem_of(e.dem[f.name])
    t = Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32)
    v = e.load(st, a[2], t)
    n = e.int_off(a[1])
    L.fill_elems(st, a[0], n, v, es, tag)
    return L.ret(st, E.Ptr(a[0].o, a[0].off.add(n.scale(es))))


CONTRACTS = [(re.compile(r), fn) for r, fn in [
    (r"^std::__throw_bad_alloc|^std::__throw_bad_array_new_length", _throw("_ZTISt9bad_alloc")),
    (r"^std::__throw_length_error", _throw("_ZTISt12length_error")),
    (r"^std::__throw_out_of_range", _throw("_ZTISt12out_of_range")),
    (r"^std::__throw_bad_function_call", _throw("_ZTISt17bad_function_call")),
    (r"^std::__throw_bad_optional_access", _throw("_ZTISt19bad_optional_access")),
    (r"^std::__throw_logic_error", _throw("_ZTISt11logic_error")),
    (r"^std::__throw_invalid_argument", _throw("_ZTISt16invalid_argument")),
    (r"std::_Sp_counted_base<.*>::_M_(release|add_ref_copy|weak_release|release_last_use|release_last_use_cold|destroy|add_ref_lock)", _ret()),
    (r"^(?:__gnu_cxx::__enable_if<.*>::__type |void )?std::__fill_a1<\w[\w ]*\*, ", _fill_range),
    (r"^(?:__gnu_cxx::__enable_if<.*>::__type |[\w ]+\* )?std::__fill_n_a1<\w[\w ]*\*, ", _fill_n),
    (r"^std::__shared_count<.*>::~__shared_count", _ret()),
]]
