"""Value domains of the VC generator.

BitsDom: machine integers are bit-vectors, doubles are IEEE-754 (SMT FloatingPoint): bit precise.
MathDom: machine integers are mathematical integers with *checked or exact* wrap-around, doubles are
         mathematical reals (rounding not modelled: listed as an assumption wherever it is used).
Concrete values stay Python ints / floats / Fractions so that constants fold.
"""
import math, struct
from fractions import Fraction
import z3
from irparse import Unsupported

RNE = z3.RNE()
RTZ = z3.RTZ()
F64S, F32S = z3.Float64(), z3.Float32()


def is_c(x):
    return isinstance(x, (int, float, Fraction, bool))


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def b_xor(a, b):
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    return z3.Xor(a, b)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    return z3.If(c, a, b)


def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def sgn(v, n):
    return v - (1 << n) if v >= (1 << (n - 1)) else v


def f32r(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(float("inf"), x)


def fdiv_py(a, b):
    if math.isnan(a) or math.isnan(b):
        return float("nan")
    if b == 0:
        if a == 0:
            return float("nan")
        return math.copysign(float("inf"), math.copysign(1, a) * math.copysign(1, b))
    return a / b


class Dom:
    n = 0

    def __init__(self, eng):
        self.eng = eng

    def name(self, base):
        Dom.n += 1
        return "%s!%d" % (base, Dom.n)


# =====================================================================================
class BitsDom(Dom):
    mode = "bits"

    def fresh_int(self, base, n, st):
        if n == 1:
            return z3.Bool(self.name(base))
        return z3.BitVec(self.name(base), n)

    def fresh_fp(self, base, w, st):
        return z3.FP(self.name(base), F64S if w == 64 else F32S)

    def zi(self, v, n):
        if isinstance(v, bool):
            v = int(v)
        return z3.BitVecVal(v, n) if isinstance(v, int) else v

    def mul_facts(self, st, a, b, r):
        """p < q implies p*s + s <= q*s (numbers below 2^31), for the products on this path"""
        ms = st.cnt.get("muls", ())
        if any(m[2].eq(r) for m in ms):
            return
        lim = z3.BitVecVal(1 << 31, 64)
        for (c, d, t) in ms:
            for (p, s1) in ((a, b), (b, a)):
                for (q, s2) in ((c, d), (d, c)):
                    if s1.eq(s2) and not p.eq(q):
                        small = z3.And([z3.ULT(v, lim) for v in (p, q, s1)])
                        st.assume(z3.Implies(z3.And(small, z3.ULT(p, q)), z3.ULE(r + s1, t)))
                        st.assume(z3.Implies(z3.And(small, z3.ULT(q, p)), z3.ULE(t + s1, r)))
                        st.assume(z3.Implies(small, z3.And(z3.ULT(t, z3.BitVecVal(1 << 62, 64)), z3.ULT(r, z3.BitVecVal(1 << 62, 64)))))
        st.cnt["muls"] = ms + ((a, b, r),)

    def zf(self, v, w):
        if isinstance(v, (float, int, Fraction)):
            return z3.FPVal(float(v), F64S if w == 64 else F32S)
        return v

    def isort(self, n):
        return z3.BitVecSort(n)

    def fsort(self, w):
        return F64S if w == 64 else F32S

    # ---- integers
    def binop(self, op, a, b, n, st, flags=()):
        M = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            return int_fold(op, a, b, n)
        if op == "add":
            if b == 0 and isinstance(b, int):
                return a
            if a == 0 and isinstance(a, int):
                return b
            return self.zi(a, n) + self.zi(b, n)
        if op == "sub":
            if isinstance(b, int) and b == 0:
                return a
            return self.zi(a, n) - self.zi(b, n)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if x == 0:
                        return 0
                    if x == 1:
                        return y
            if self.eng.opt.get("mul_uf") and n == 64 and not isinstance(a, int) and not isinstance(b, int):
                if a.get_id() > b.get_id():
                    a, b = b, a
                r = self.eng.uf("mul64", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))(a, b)
                if st is not None:
                    self.mul_facts(st, a, b, r)
                return r
            return self.zi(a, n) * self.zi(b, n)
        A, B = self.zi(a, n), self.zi(b, n)
        if op == "udiv":
            if isinstance(b, int) and b == 1:
                return a
            return z3.UDiv(A, B)
        if op == "sdiv":
            return A / B
        if op == "urem":
            return z3.URem(A, B)
        if op == "srem":
            return z3.SRem(A, B)
        if op == "and":
            return A & B
        if op == "or":
            return A | B
        if op == "xor":
            return A ^ B
        if op == "shl":
            return A << B
        if op == "lshr":
            return z3.LShR(A, B)
        if op == "ashr":
            return A >> B
        raise Unsupported(op)

    def icmp(self, pr, a, b, n, st=None):
        if isinstance(a, int) and isinstance(b, int):
            return cmp_fold(pr, a, b, n)
        A, B = self.zi(a, n), self.zi(b, n)
        if A.eq(B):
            return pr in ("eq", "ule", "uge", "sle", "sge")
        return {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B),
                "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B),
                "slt": lambda: A < B, "sle": lambda: A <= B, "sgt": lambda: A > B,
                "sge": lambda: A >= B}[pr]()

    def trunc(self, a, n, m, st):
        if isinstance(a, int):
            return a & ((1 << m) - 1)
        return z3.simplify(z3.Extract(m - 1, 0, a))

    def zext(self, a, n, m):
        if isinstance(a, int):
            return a
        return z3.ZeroExt(m - n, a)

    def sext(self, a, n, m):
        if isinstance(a, int):
            return sgn(a, n) & ((1 << m) - 1)
        return z3.SignExt(m - n, a)

    def ite_int(self, c, a, b, n):
        return z3.If(c, self.zi(a, n), self.zi(b, n))

    # ---- floating point
    def fconst(self, v, w):
        return f32r(v) if w == 32 else v

    def fop(self, op, a, b, w, st):
        if isinstance(a, float) and isinstance(b, float):
            r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b,
                 "fdiv": lambda: fdiv_py(a, b)}.get(op)
            if r:
                return f32r(r()) if w == 32 else r()
        A, B = self.zf(a, w), self.zf(b, w)
        uf = self.eng.opt.get("fp_uf")
        if op in ("fadd", "fmul") and A.get_id() > B.get_id():
            A, B = B, A
        if uf and w == 64 and op in uf:
            return self.eng.uf(op, F64S, F64S, F64S)(A, B)
        if op == "fadd":
            return z3.fpAdd(RNE, A, B)
        if op == "fsub":
            return z3.fpSub(RNE, A, B)
        if op == "fmul":
            return z3.fpMul(RNE, A, B)
        if op == "fdiv":
            return z3.fpDiv(RNE, A, B)
        raise Unsupported("fp " + op)

    def fneg(self, a, w):
        return -a if isinstance(a, float) else z3.fpNeg(a)

    def fabs(self, a, w):
        return abs(a) if isinstance(a, float) else z3.fpAbs(a)

    def fcmp(self, pr, a, b, w, st=None):
        if isinstance(a, float) and isinstance(b, float):
            return fcmp_fold(pr, a, b)
        A, B = self.zf(a, w), self.zf(b, w)
        if pr == "uno":
            return self.isnan2(a, b, A, B)
        if pr == "ord":
            return b_not(self.isnan2(a, b, A, B))
        base = {"oeq": z3.fpEQ, "ogt": z3.fpGT, "oge": z3.fpGEQ, "olt": z3.fpLT, "ole": z3.fpLEQ}
        if pr in base:
            return base[pr](A, B)
        if pr == "one":
            return z3.Or(z3.fpLT(A, B), z3.fpGT(A, B))
        inv = {"une": "oeq", "ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt", "ueq": "one"}
        if pr in inv:
            return z3.Not(self.fcmp(inv[pr], a, b, w))
        raise Unsupported("fcmp " + pr)

    def isnan2(self, a, b, A, B):
        r = False
        for x, X in ((a, A), (b, B)):
            if isinstance(x, float):
                if math.isnan(x):
                    return True
            else:
                r = b_or(r, z3.fpIsNaN(X)) if r is False or not r.eq(z3.fpIsNaN(X)) else r
        return r

    def isnan(self, a, w):
        return math.isnan(a) if isinstance(a, float) else z3.fpIsNaN(a)

    def ite_fp(self, c, a, b, w):
        return z3.If(c, self.zf(a, w), self.zf(b, w))

    def itofp(self, a, n, w, signed, st):
        if isinstance(a, int):
            v = sgn(a, n) if signed else a
            return self.fconst(float(v), w) if w == 64 or abs(v) < 1 << 24 else f32r(float(v))
        if n == 1:
            a = z3.If(a, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            signed = False
        s = F64S if w == 64 else F32S
        if self.eng.opt.get("conv_uf"):
            # abstraction: an uninterpreted function within the exactly representable range
            while a.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
                signed = signed and a.decl().kind() == z3.Z3_OP_SIGN_EXT
                a = a.arg(0)
            if a.decl().kind() == z3.Z3_OP_CONCAT and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and \
                    a.arg(0).as_long() == 0:
                a, signed = a.arg(1), False
            r = z3.Function("%citofp%d_%d" % ("us"[signed], a.size(), w), a.sort(), s)(a)
            nn = a.size()
            lo, hi = (-(1 << (nn - 1)), 1 << (nn - 1)) if signed else (0, 1 << nn)
            if nn < 53:
                hi -= 1
            st.assume(z3.And(z3.fpGEQ(r, self.zf(float(lo), w)), z3.fpLEQ(r, self.zf(float(hi), w))))
            if w == 64:
                back = z3.Function("fpto%ci%d_%d" % ("us"[signed], nn, w), s, a.sort())
                bv = lambda x: z3.BitVecVal(x, nn)
                if nn < 53:
                    # exact conversion: it can be inverted, and reaches the ends of the range only there
                    st.assume(z3.And(back(r) == a, z3.fpEQ(r, self.zf(float(lo), w)) == (a == bv(lo)),
                                     z3.fpEQ(r, self.zf(float(hi), w)) == (a == bv(hi))))
                else:
                    le = (lambda p, q: p <= q) if signed else z3.ULE
                    m = 1 << 53
                    small = z3.And(le(bv(-m if signed else 0), a), le(a, bv(m)))
                    st.assume(z3.Implies(small, z3.And(back(r) == a, z3.fpGEQ(r, self.zf(float(-m), w)),
                                                       z3.fpLEQ(r, self.zf(float(m), w)))))
                    if self.eng.opt.get("conv_mono") and not signed:
                        self.conv_order(a, r, st)
            return r
        return z3.fpSignedToFP(RNE, a, s) if signed else z3.fpUnsignedToFP(RNE, a, s)

    def conv_order(self, a, r, st):
        """conversion of unsigned integers keeps their order (strictly where it is exact)"""
        cs = st.cnt.get("convs", ())
        if any(r.eq(r2) for _, r2 in cs):
            return
        m = z3.BitVecVal(1 << 53, a.size())
        for a2, r2 in cs:
            if a2.size() != a.size():
                continue
            st.assume(z3.Implies(z3.ULE(a, a2), z3.fpLEQ(r, r2)))
            st.assume(z3.Implies(z3.ULE(a2, a), z3.fpLEQ(r2, r)))
            st.assume(z3.Implies(z3.And(z3.ULT(a, a2), z3.ULE(a2, m)), z3.fpLT(r, r2)))
            st.assume(z3.Implies(z3.And(z3.ULT(a2, a), z3.ULE(a, m)), z3.fpLT(r2, r)))
        st.cnt["convs"] = cs + ((a, r),)

    def fptoi(self, a, w, n, signed, st):
        # out-of-range conversion is undefined behaviour: the caller records the range obligation
        if isinstance(a, float):
            if math.isnan(a) or math.isinf(a):
                return 0
            return int(a) & ((1 << n) - 1)
        if self.eng.opt.get("conv_uf"):
            return z3.Function("fpto%ci%d_%d" % ("us"[signed], n, w), F64S if w == 64 else F32S,
                               z3.BitVecSort(n))(a)
        return z3.fpToSBV(RTZ, a, z3.BitVecSort(n)) if signed else z3.fpToUBV(RTZ, a, z3.BitVecSort(n))

    def fp_in_int_range(self, a, w, n, signed):
        lo = -(1 << (n - 1)) if signed else 0
        hi = (1 << (n - 1)) if signed else (1 << n)
        if isinstance(a, float):
            return not math.isnan(a) and not math.isinf(a) and lo <= int(a) < hi
        # trunc(a) in [lo, hi-1]  <=>  lo-1 < a < hi
        up = z3.fpLT(a, self.zf(float(hi), w))
        if float(lo) - 1 != float(lo) and f32r(float(lo) - 1) != float(lo):
            dn = z3.fpGT(a, self.zf(float(lo) - 1, w))
        else:
            dn = z3.fpGEQ(a, self.zf(float(lo), w))
        return z3.And(dn, up)

    def fpconv(self, a, w, w2, st):
        if isinstance(a, float):
            return f32r(a) if w2 == 32 else a
        if self.eng.opt.get("conv_uf"):
            r = z3.Function("fpconv%d_%d" % (w, w2), F64S if w == 64 else F32S, F64S if w2 == 64 else F32S)(a)
            st.assume(z3.fpIsNaN(r) == z3.fpIsNaN(a))
            if w2 == 64:
                # exact conversion: it can be inverted, and reaches the ends of the range only there
                back = z3.Function("fpconv64_32", F64S, F32S)
                mx = float.fromhex("0x1.fffffep+127")
                st.assume(z3.And(z3.fpIsInf(r) == z3.fpIsInf(a), back(r) == a))
                for e in (mx, -mx, 0.0):
                    st.assume(z3.fpEQ(r, self.zf(e, 64)) == z3.fpEQ(a, self.zf(e, 32)))
                st.assume(z3.Or(z3.fpIsInf(r), z3.fpIsNaN(r), z3.And(z3.fpLEQ(r, self.zf(mx, 64)),
                                                                   z3.fpGEQ(r, self.zf(-mx, 64)))))
            return r
        return z3.fpFPToFP(RNE, a, F64S if w2 == 64 else F32S)

    def fp2bits(self, a, w):
        if isinstance(a, float):
            return struct.unpack("<Q", struct.pack("<d", a))[0] if w == 64 else \
                struct.unpack("<I", struct.pack("<f", a))[0]
        return z3.fpToIEEEBV(a)

    def bits2fp(self, a, w):
        if isinstance(a, int):
            return struct.unpack("<d", struct.pack("<Q", a))[0] if w == 64 else \
                struct.unpack("<f", struct.pack("<I", a))[0]
        return z3.fpBVToFP(a, F64S if w == 64 else F32S)

    def feq_term(self, a, b, w):
        """term equality (identical value; NaN equals NaN)"""
        return self.zf(a, w) == self.zf(b, w)

    def fround(self, kind, a, w, st):
        if isinstance(a, float) and (math.isnan(a) or math.isinf(a)):
            return a
        if isinstance(a, float):
            if kind == "round":
                return math.copysign(math.floor(abs(a) + 0.5), a) if abs(a) < 2 ** 52 else a
            return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[kind](a))
        m = {"round": z3.RNA(), "floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ()}[kind]
        return z3.fpRoundToIntegral(m, a)


def int_fold(op, a, b, n):
    M = (1 << n) - 1
    sa, sb = sgn(a, n), sgn(b, n)
    if op == "add":
        return (a + b) & M
    if op == "sub":
        return (a - b) & M
    if op == "mul":
        return (a * b) & M
    if op == "udiv":
        return a // b if b else 0
    if op == "urem":
        return a % b if b else 0
    if op == "sdiv":
        return (int(Fraction(sa, sb)) & M) if sb else 0
    if op == "srem":
        return ((sa - sb * int(Fraction(sa, sb))) & M) if sb else 0
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & M if b < n else 0
    if op == "lshr":
        return a >> b if b < n else 0
    if op == "ashr":
        return (sa >> b) & M if b < n else 0
    raise Unsupported(op)


def cmp_fold(pr, a, b, n):
    if pr == "eq":
        return a == b
    if pr == "ne":
        return a != b
    if pr[0] == "s":
        a, b = sgn(a, n), sgn(b, n)
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pr[1:]]


def fcmp_fold(pr, a, b):
    un = math.isnan(a) or math.isnan(b)
    if pr == "ord":
        return not un
    if pr == "uno":
        return un
    r = {"eq": a == b, "ne": a != b and not un, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pr[1:]]
    return (un or r) if pr[0] == "u" else (r and not un)


# =====================================================================================
class MathDom(Dom):
    mode = "math"

    def fresh_int(self, base, n, st):
        if n == 1:
            return z3.Bool(self.name(base))
        v = z3.Int(self.name(base))
        st.assume(v >= 0)
        st.assume(v < (1 << n))
        return v

    def fresh_fp(self, base, w, st):
        return z3.Real(self.name(base))

    def zi(self, v, n):
        if isinstance(v, bool):
            v = int(v)
        return z3.IntVal(v) if isinstance(v, int) else v

    def zf(self, v, w):
        if isinstance(v, float):
            if math.isnan(v) or math.isinf(v):
                raise Unsupported("NaN/inf value reaches real arithmetic")
            v = Fraction(v)
        if isinstance(v, (int, Fraction)):
            return z3.RealVal(v)
        return v

    def isort(self, n):
        return z3.IntSort()

    def fsort(self, w):
        return z3.RealSort()

    def inr(self, t, n, st, lo=0, hi=None):
        """is lo <= t < hi provable on this path?"""
        hi = (1 << n) if hi is None else hi
        return self.eng.entails(st, z3.And(t >= lo, t < hi))

    def wrap(self, t, n, st):
        if self.inr(t, n, st):
            return t
        M = 1 << n
        if self.inr(t, n, st, -M, 2 * M):
            return z3.If(t < 0, t + M, z3.If(t >= M, t - M, t))
        return t % M

    def s(self, a, n, st):
        """signed reading of a canonical unsigned term"""
        if isinstance(a, int):
            return z3.IntVal(sgn(a, n))
        H = 1 << (n - 1)
        if st is not None and self.inr(a, n, st, 0, H):
            return a
        return z3.If(a >= H, a - (1 << n), a)

    def binop(self, op, a, b, n, st, flags=()):
        if isinstance(a, int) and isinstance(b, int):
            return int_fold(op, a, b, n)
        M = 1 << n
        H = M >> 1
        if op in ("add", "sub"):
            if isinstance(b, int):
                if b == 0:
                    return a
                c = sgn(b, n) if b >= M - (1 << 20) else b
                t = a + c if op == "add" else a - c
            elif isinstance(a, int):
                c = sgn(a, n) if a >= M - (1 << 20) else a
                t = b + c if op == "add" else c - b
            else:
                t = a + b if op == "add" else a - b
            return self.wrap(z3.simplify(t, som=True), n, st)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if x == 0:
                        return 0
                    if x == 1:
                        return y
            if isinstance(b, int) and b >= H:
                b = sgn(b, n)
            if isinstance(a, int) and a >= H:
                a = sgn(a, n)
            return self.wrap(z3.simplify(self.zi(a, n) * self.zi(b, n), som=True), n, st)
        if op in ("udiv", "urem"):
            if isinstance(b, int):
                d = self.exact_div(a, b, st)
                if d is not None:
                    return d if op == "udiv" else 0
                return a / z3.IntVal(b) if op == "udiv" else a % z3.IntVal(b)
            q, r = self.eng.divmod(st, self.zi(a, n), b)
            return q if op == "udiv" else r
        if op in ("sdiv", "ashr"):
            if op == "ashr" and isinstance(b, int):
                d = 1 << b
            elif isinstance(b, int):
                d = sgn(b, n)
            else:
                raise Unsupported("symbolic sdiv")
            sa = self.s(a, n, st)
            e = self.exact_div(sa, d, st)
            if e is not None:
                return self.wrap(e, n, st)
            if self.eng.entails(st, sa >= 0) and d > 0:
                return sa / z3.IntVal(d)
            if op == "ashr":
                return self.wrap(sa / z3.IntVal(d), n, st)
            raise Unsupported("sdiv of negative")
        if op == "srem" and isinstance(b, int):
            sa = self.s(a, n, st)
            if self.eng.entails(st, sa >= 0):
                return sa % z3.IntVal(b)
            raise Unsupported("srem of negative")
        if op == "shl" and isinstance(b, int):
            return self.binop("mul", a, 1 << b, n, st)
        if op == "lshr" and isinstance(b, int):
            return self.binop("udiv", a, 1 << b, n, st)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if x == 0:
                        return 0
                    if x == M - 1:
                        return y
                    if x & (x + 1) == 0:
                        return y % z3.IntVal(x + 1)
                    y0 = M - x
                    if y0 & (y0 - 1) == 0:        # clears low bits
                        return y - y % z3.IntVal(y0)
        if op == "xor" and isinstance(b, int) and b == M - 1:
            return (M - 1) - a
        A = z3.Int2BV(self.zi(a, n), n)
        B = z3.Int2BV(self.zi(b, n), n)
        r = {"and": lambda: A & B, "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B,
             "lshr": lambda: z3.LShR(A, B)}.get(op)
        if r is None:
            raise Unsupported(op)
        return z3.BV2Int(r())

    def exact_div(self, a, d, st):
        """a/d when every additive part of a is a multiple of d"""
        if isinstance(a, int):
            return a // d if a % d == 0 else None
        if d == 1:
            return a
        if z3.is_add(a):
            ps = [self.exact_div(c, d, st) for c in a.children()]
            if any(p is None for p in ps):
                return None
            return z3.Sum([self.zi(p, 64) for p in ps])
        if z3.is_int_value(a):
            v = a.as_long()
            return z3.IntVal(v // d) if v % d == 0 else None
        if z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % d == 0:
            k = a.arg(0).as_long() // d
            rest = a.children()[1:]
            r = rest[0]
            for x in rest[1:]:
                r = r * x
            return r if k == 1 else z3.IntVal(k) * r
        return None

    def icmp(self, pr, a, b, n, st=None):
        if isinstance(a, int) and isinstance(b, int):
            return cmp_fold(pr, a, b, n)
        if pr[0] == "s":
            A, B = self.s(a, n, st), self.s(b, n, st)
        else:
            A, B = self.zi(a, n), self.zi(b, n)
        if A.eq(B):
            return pr in ("eq", "ule", "uge", "sle", "sge")
        return {"eq": lambda: A == B, "ne": lambda: A != B, "lt": lambda: A < B, "le": lambda: A <= B,
                "gt": lambda: A > B, "ge": lambda: A >= B}[pr if pr in ("eq", "ne") else pr[1:]]()

    def trunc(self, a, n, m, st):
        if isinstance(a, int):
            return a & ((1 << m) - 1)
        if self.inr(a, m, st):
            return a
        return a % (1 << m)

    def zext(self, a, n, m):
        return a

    def sext(self, a, n, m):
        if isinstance(a, int):
            return sgn(a, n) & ((1 << m) - 1)
        return z3.If(a >= (1 << (n - 1)), a + ((1 << m) - (1 << n)), a)

    def ite_int(self, c, a, b, n):
        return z3.If(c, self.zi(a, n), self.zi(b, n))

    # ---- reals
    def fconst(self, v, w):
        if math.isnan(v) or math.isinf(v):
            return v
        pi = self.eng.pi_const(v)
        return pi if pi is not None else Fraction(v)

    def special(self, *xs):
        return any(isinstance(x, float) for x in xs)

    def fop(self, op, a, b, w, st):
        if self.special(a, b):
            fa = [float(x) if is_c(x) else None for x in (a, b)]
            if any(x is not None and math.isnan(x) for x in fa):
                return float("nan")
            raise Unsupported("inf in real arithmetic")
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv" and b != 0:
                return a / b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Fraction):
                if op == "fadd" and x == 0:
                    return y
                if op == "fmul" and x == 1:
                    return y
                if op == "fmul" and x == 0:
                    return Fraction(0)
        if isinstance(b, Fraction):
            if op == "fsub" and b == 0:
                return a
            if op == "fdiv" and b == 1:
                return a
        A, B = self.zf(a, w), self.zf(b, w)
        if op == "fadd":
            return A + B
        if op == "fsub":
            return A - B
        if op == "fmul":
            return A * B
        if op == "fdiv":
            if isinstance(b, Fraction) and b != 0:
                return A * z3.RealVal(1 / b)
            self.eng.need_nonzero(st, B)
            return A / B
        raise Unsupported("real " + op)

    def fneg(self, a, w):
        return -a if is_c(a) else -a

    def fabs(self, a, w):
        return abs(a) if is_c(a) else z3.If(a >= 0, a, -a)

    def fcmp(self, pr, a, b, w, st=None):
        if is_c(a) and is_c(b):
            if isinstance(a, float) or isinstance(b, float):
                return fcmp_fold(pr, float(a), float(b))
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
                    "rd": True, "no": False}[pr[1:]]
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, float):
                if math.isnan(x):
                    return pr[0] == "u"
                # infinite constant against a finite real
                return fcmp_fold(pr, x, 0.0) if not sw else fcmp_fold(pr, 0.0, x)
        if pr == "ord":
            return True
        if pr == "uno":
            return False
        A, B = self.zf(a, w), self.zf(b, w)
        if A.eq(B):
            return pr[1:] in ("eq", "le", "ge")
        return {"eq": lambda: A == B, "ne": lambda: A != B, "lt": lambda: A < B, "le": lambda: A <= B,
                "gt": lambda: A > B, "ge": lambda: A >= B}[pr[1:]]()

    def isnan(self, a, w):
        return isinstance(a, float) and math.isnan(a)

    def ite_fp(self, c, a, b, w):
        return z3.If(c, self.zf(a, w), self.zf(b, w))

    def itofp(self, a, n, w, signed, st):
        if isinstance(a, int):
            return Fraction(sgn(a, n) if signed else a)
        if n == 1:
            return z3.If(a, z3.RealVal(1), z3.RealVal(0))
        return z3.ToReal(self.s(a, n, st) if signed else a)

    def fptoi(self, a, w, n, signed, st):
        if is_c(a):
            if isinstance(a, float):
                return 0
            return int(a) & ((1 << n) - 1)
        # the range obligation (undefined otherwise) is recorded by the caller and assumed here
        t = z3.simplify(a)                                          # whole part i of i + f, 0 <= f < 1
        if z3.is_add(t):
            whole = [x for x in t.children() if z3.is_to_real(x)]
            if whole and len(whole) < t.num_args():
                i = z3.Sum([x.arg(0) for x in whole]) if len(whole) > 1 else whole[0].arg(0)
                f = z3.Sum([x for x in t.children() if not z3.is_to_real(x)])
                if self.eng.entails(st, z3.And(i >= 0, f >= 0, f < 1)):
                    return self.wrap(i, n, st) if signed else i
        t = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        if self.eng.entails(st, a >= 0):
            t = z3.ToInt(a)
        if signed:
            return self.wrap(t, n, st)
        return t

    def fp_in_int_range(self, a, w, n, signed):
        lo = -(1 << (n - 1)) if signed else 0
        hi = (1 << (n - 1)) if signed else (1 << n)
        if is_c(a):
            return not isinstance(a, float) and lo <= int(a) < hi
        return z3.And(a > lo - 1, a < hi)

    def fpconv(self, a, w, w2, st):
        return a

    def fp2bits(self, a, w):
        raise Unsupported("bit pattern of a real")

    def bits2fp(self, a, w):
        if isinstance(a, int):
            return self.fconst(struct.unpack("<d", struct.pack("<Q", a))[0] if w == 64 else
                               struct.unpack("<f", struct.pack("<I", a))[0], w)
        raise Unsupported("bit pattern to real")

    def feq_term(self, a, b, w):
        if is_c(a) and is_c(b):
            return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))
        return self.zf(a, w) == self.zf(b, w)

    def fround(self, kind, a, w, st):
        if isinstance(a, float):
            return a
        if isinstance(a, Fraction):
            if kind == "round":
                m = math.floor(abs(a) + Fraction(1, 2))
                return Fraction(m if a >= 0 else -m)
            return Fraction({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[kind](a))
        if kind == "floor":
            return z3.ToReal(z3.ToInt(a))
        if kind == "ceil":
            return z3.ToReal(-z3.ToInt(-a))
        if kind == "trunc":
            return z3.ToReal(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))
        h = z3.RealVal("1/2")
        return z3.ToReal(z3.If(a >= 0, z3.ToInt(a + h), -z3.ToInt(h - a)))
